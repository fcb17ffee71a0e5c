// C17: the functions of Terathon::Text against their plain definitions.
#include "common.h"
#include "TSString.h"
#include "TSText.h"

#include <cmath>
#include <memory>

using namespace Terathon;
using vf::Rng;

[[noreturn]] static void bad( const std::string& fn, const std::string& arg, const std::string& got, const std::string& want )
{
    vf::fail( fn + "(" + vf::shown( arg, 120 ) + ") gives " + vf::shown( got, 120 ) + ", not " + vf::shown( want, 120 ) );
}
static void num( const char* fn, const std::string& arg, long long got, long long want )
{
    if ( got != want ) bad( fn, arg, std::to_string( got ), std::to_string( want ) );
    vf::st.evaluations++;
}

// Bytes on the heap with nothing readable behind them.
struct Exact
{
    std::unique_ptr<char[]> p;
    explicit Exact( const std::string& s ) : p( new char[ s.size() + 1 ] ) { memcpy( p.get(), s.c_str(), s.size() + 1 ); }
    operator const char*() const { return p.get(); }
};
struct Raw
{
    std::unique_ptr<char[]> p;
    explicit Raw( const std::string& s ) : p( new char[ s.size() ] ) { memcpy( p.get(), s.data(), s.size() ); }
    operator const char*() const { return p.get(); }
};
// A destination with exactly max characters and a terminator of room.
struct Room
{
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Room( int max ) : p( new char[ size_t( max < 0 ? 0 : max ) + 1 ] ), n( size_t( max < 0 ? 0 : max ) + 1 ) { memset( p.get(), 0x77, n ); }
    operator char*() { return p.get(); }
    std::string text( const char* fn ) { size_t l = strnlen( p.get(), n ); if ( l == n ) vf::fail( std::string( fn ) + " does not terminate its result" ); return std::string( p.get(), l ); }
};

static std::string utf8( uint32_t c )
{
    std::string o;
    if ( c < 0x80 ) o += char( c );
    else if ( c < 0x800 ) { o += char( 0xC0 | c >> 6 ); o += char( 0x80 | ( c & 63 ) ); }
    else if ( c < 0x10000 ) { o += char( 0xE0 | c >> 12 ); o += char( 0x80 | ( c >> 6 & 63 ) ); o += char( 0x80 | ( c & 63 ) ); }
    else { o += char( 0xF0 | c >> 18 ); o += char( 0x80 | ( c >> 12 & 63 ) ); o += char( 0x80 | ( c >> 6 & 63 ) ); o += char( 0x80 | ( c & 63 ) ); }
    return o;
}
static bool surrogate( uint32_t c ) { return c >= 0xD800 && c < 0xE000; }

// Table 3-7 of the Unicode standard; 0 when ill-formed; -1 for an encoded surrogate, which is left open.
static int wellFormed( const unsigned char* b, uint32_t& code )
{
    auto cont = []( unsigned char c, int lo = 0x80, int hi = 0xBF ) { return c >= lo && c <= hi; };
    if ( b[ 0 ] < 0x80 ) { code = b[ 0 ]; return 1; }
    if ( b[ 0 ] >= 0xC2 && b[ 0 ] <= 0xDF ) { if ( !cont( b[ 1 ] ) ) return 0; code = uint32_t( b[ 0 ] & 31 ) << 6 | ( b[ 1 ] & 63 ); return 2; }
    if ( b[ 0 ] >= 0xE0 && b[ 0 ] <= 0xEF )
    {
        if ( !cont( b[ 1 ], b[ 0 ] == 0xE0 ? 0xA0 : 0x80 ) || !cont( b[ 2 ] ) ) return 0;
        code = uint32_t( b[ 0 ] & 15 ) << 12 | uint32_t( b[ 1 ] & 63 ) << 6 | ( b[ 2 ] & 63 );
        return surrogate( code ) ? -1 : 3;
    }
    if ( b[ 0 ] >= 0xF0 && b[ 0 ] <= 0xF4 )
    {
        if ( !cont( b[ 1 ], b[ 0 ] == 0xF0 ? 0x90 : 0x80, b[ 0 ] == 0xF4 ? 0x8F : 0xBF ) || !cont( b[ 2 ] ) || !cont( b[ 3 ] ) ) return 0;
        code = uint32_t( b[ 0 ] & 7 ) << 18 | uint32_t( b[ 1 ] & 63 ) << 12 | uint32_t( b[ 2 ] & 63 ) << 6 | ( b[ 3 ] & 63 );
        return 4;
    }
    return 0;
}

static void unicodeBytes( const unsigned char* b, int n )
{
    // The sequence ends at its first zero byte; nothing behind that may be read.
    int len = 0;
    while ( len < n && b[ len ] ) len++;
    std::string s( reinterpret_cast<const char*>( b ), size_t( len ) );
    unsigned char z[ 8 ] = {};
    memcpy( z, b, size_t( len ) );
    uint32_t want = 0;
    int w = wellFormed( z, want );
    if ( w < 0 ) return;
    static thread_local std::unique_ptr<char[]> buf[ 6 ];
    if ( !buf[ 0 ] ) for ( int i = 0; i < 6; i++ ) buf[ i ].reset( new char[ size_t( i ) + 1 ] );
    char* p = buf[ len ].get();
    memcpy( p, s.c_str(), size_t( len ) + 1 );
    num( "ValidateUnicodeChar", s, Text::ValidateUnicodeChar( p ), w );
    uint32 code = 12345;
    int got = Text::ReadUnicodeChar( p, &code );
    num( "ReadUnicodeChar length", s, got, w ? w : 1 );
    num( "ReadUnicodeChar code", s, code, w ? want : 0xFFFD );
}

static void codePoint( uint32_t c )
{
    int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x110000 ? 4 : 0;
    num( "GetUnicodeCharByteCount", std::to_string( c ), Text::GetUnicodeCharByteCount( c ), n );
    if ( surrogate( c ) ) return;
    unsigned char b[ 12 ];
    memset( b, 0x77, 12 );
    num( "WriteUnicodeChar", std::to_string( c ), Text::WriteUnicodeChar( reinterpret_cast<char*>( b + 2 ), c ), n );
    std::string want = n ? utf8( c ) : "";
    if ( memcmp( b + 2, want.data(), want.size() ) != 0 ) bad( "WriteUnicodeChar", std::to_string( c ), std::string( reinterpret_cast<char*>( b + 2 ), 4 ), want );
    for ( size_t i = 0; i < 12; i++ ) if ( ( i < 2 || i >= 2 + want.size() ) && b[ i ] != 0x77 ) vf::fail( "WriteUnicodeChar writes outside the character (" + std::to_string( c ) + ")" );
    if ( n && c )
    {
        unsigned char z[ 5 ] = {};
        memcpy( z, want.data(), want.size() );
        unicodeBytes( z, 5 );
    }
}

// --- texts -----------------------------------------------------------------------

static uint32_t someCode( Rng& r )
{
    static const uint32_t e[] = { 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x100000, 0x3ffff, 0x40000 };
    if ( r.chance( 1, 3 ) ) return e[ r.below( 16 ) ];
    uint32_t c = r.chance( 1, 2 ) ? 1 + r.below( 127 ) : r.chance( 1, 2 ) ? 0x80 + r.below( 0x780 ) : r.chance( 1, 2 ) ? 0x800 + r.below( 0xF800 ) : 0x10000 + r.below( 0x100000 );
    return surrogate( c ) ? 'x' : c;
}

static void unicodeText( uint64_t, Rng& r )
{
    int n = r.range( 0, 24 );
    std::vector<uint32_t> codes;
    std::vector<std::string> chars;
    std::string all;
    std::vector<uint16> wide;
    for ( int i = 0; i < n; i++ )
    {
        uint32_t c = someCode( r );
        codes.push_back( c );
        chars.push_back( utf8( c ) );
        all += chars.back();
        if ( c < 0x10000 ) wide.push_back( uint16( c ) );
        else { wide.push_back( uint16( 0xD800 + ( ( c - 0x10000 ) >> 10 ) ) ); wide.push_back( uint16( 0xDC00 + ( ( c - 0x10000 ) & 0x3ff ) ) ); }
    }
    Exact e( all );
    num( "GetUnicodeCharCount", all, Text::GetUnicodeCharCount( e ), n );
    for ( int more : { 1, 2, 5, 1000 } ) num( "GetUnicodeCharCount max", all + " more", Text::GetUnicodeCharCount( e, int32( all.size() ) + more ), n );
    num( "GetTextLength", all, Text::GetTextLength( e ), (long long)all.size() );
    num( "GetWideTextCharCount", all, Text::GetWideTextCharCount( e ), (long long)wide.size() );
    size_t pos = 0;
    for ( int i = 0; i <= n; i++ )
    {
        Raw front( all.substr( 0, pos ) );
        num( "GetUnicodeCharCount max", all + " " + std::to_string( pos ), Text::GetUnicodeCharCount( front, int32( pos ) ), i );
        num( "GetUnicodeCharStringByteCount", all + " " + std::to_string( i ), Text::GetUnicodeCharStringByteCount( e, i ), (long long)pos );
        if ( i > 0 )
            for ( int max : { int( pos ), int( chars[ size_t( i - 1 ) ].size() ), 1, 2, 0 } )
                if ( size_t( max ) <= pos ) num( "GetPreviousUnicodeCharByteCount", all + " at " + std::to_string( pos ) + " max " + std::to_string( max ), Text::GetPreviousUnicodeCharByteCount( front + pos, max ), std::min<long long>( max, (long long)chars[ size_t( i - 1 ) ].size() ) );
        if ( i < n )
        {
            Raw back( all.substr( pos ) );
            int rest = int( all.size() - pos );
            for ( int max : { rest, 1, 2, 3 } ) if ( max <= rest ) num( "GetNextUnicodeCharByteCount", all + " at " + std::to_string( pos ), Text::GetNextUnicodeCharByteCount( back, max ), std::min<long long>( max, (long long)chars[ size_t( i ) ].size() ) );
            pos += chars[ size_t( i ) ].size();
        }
    }
    num( "GetUnicodeCharStringByteCount", all + " more", Text::GetUnicodeCharStringByteCount( e, n + 3 ), (long long)all.size() );
    // UTF-16 to UTF-8, with lone surrogates, which are dropped
    std::vector<uint16> dirty;
    for ( size_t i = 0; i < wide.size(); i++ )
    {
        bool second = wide[ i ] >= 0xDC00 && wide[ i ] < 0xE000;
        if ( !second && r.chance( 1, 10 ) ) dirty.push_back( uint16( 0xDC00 + r.below( 0x400 ) ) );
        if ( !second && wide[ i ] < 0xD800 && r.chance( 1, 10 ) ) dirty.push_back( uint16( 0xD800 + r.below( 0x400 ) ) );
        dirty.push_back( wide[ i ] );
    }
    if ( r.chance( 1, 10 ) ) dirty.push_back( uint16( 0xD800 + r.below( 0x400 ) ) );
    std::unique_ptr<uint16[]> w( new uint16[ dirty.size() + 1 ] );
    for ( size_t i = 0; i < dirty.size(); i++ ) w[ i ] = dirty[ i ];
    w[ dirty.size() ] = 0;
    num( "GetUnicodeStringLength", all, Text::GetUnicodeStringLength( w.get() ), (long long)all.size() );
    for ( int max : { int( all.size() ), int( all.size() ) + 3, r.range( 0, int( all.size() ) ), 0, 1, 3 } )
    {
        Room room( max );
        Text::ConvertWideTextToString( w.get(), room, max );
        std::string want;
        for ( auto& c : chars ) { if ( want.size() + c.size() > size_t( max ) ) break; want += c; }
        if ( room.text( "ConvertWideTextToString" ) != want ) bad( "ConvertWideTextToString", all + " max " + std::to_string( max ), room.text( "" ), want );
        vf::st.evaluations++;
    }
    // UTF-8 to UTF-16; ill-formed bytes become U+FFFD
    std::string mixed;
    std::vector<std::vector<uint16>> units;
    for ( int i = 0; i < n; i++ )
    {
        if ( r.chance( 1, 8 ) ) { mixed += "\xff\x80\xc0\xf8"[ r.below( 4 ) ]; units.push_back( { 0xFFFD } ); while ( !mixed.empty() && mixed.back() == '\x80' && mixed.size() > 1 && (unsigned char)mixed[ mixed.size() - 2 ] >= 0xC2 && (unsigned char)mixed[ mixed.size() - 2 ] < 0xF5 ) mixed.back() = '\xff'; }
        mixed += chars[ size_t( i ) ];
        uint32_t c = codes[ size_t( i ) ];
        if ( c < 0x10000 ) units.push_back( { uint16( c ) } );
        else units.push_back( { uint16( 0xD800 + ( ( c - 0x10000 ) >> 10 ) ), uint16( 0xDC00 + ( ( c - 0x10000 ) & 0x3ff ) ) } );
    }
    size_t total = 0;
    for ( auto& u : units ) total += u.size();
    Exact m( mixed );
    num( "GetWideTextCharCount", mixed, Text::GetWideTextCharCount( m ), (long long)total );
    for ( int max : { int( total ), int( total ) + 2, r.range( 0, int( total ) ), 0, 1, 2 } )
    {
        std::vector<uint16> want;
        for ( auto& u : units ) { if ( want.size() + u.size() > size_t( max ) ) break; want.insert( want.end(), u.begin(), u.end() ); }
        std::unique_ptr<uint16[]> out( new uint16[ size_t( max ) + 1 ] );
        Text::ConvertStringToWideText( m, out.get(), max );
        want.push_back( 0 );
        for ( size_t i = 0; i < want.size(); i++ ) if ( out[ i ] != want[ i ] ) bad( "ConvertStringToWideText", mixed + " max " + std::to_string( max ), std::to_string( out[ i ] ) + " at " + std::to_string( i ), std::to_string( want[ i ] ) );
        vf::st.evaluations++;
    }
    vf::nontrivial( vf::hashStr( all ) );
}

// Ill-formed text: only the memory and the bounds matter.
static void unicodeSoup( uint64_t, Rng& r )
{
    std::string s;
    int n = r.range( 0, 9 );
    for ( int i = 0; i < n; i++ ) s += "\x01z\x80\xbf\xc1\xc2\xdf\xe0\xef\xf0\xf4\xf7\xf8\xff"[ r.below( 14 ) ];
    Exact e( s );
    int c = Text::GetUnicodeCharCount( e );
    if ( c < 0 || c > n || ( n && !c ) ) bad( "GetUnicodeCharCount", s, std::to_string( c ), "1.." + std::to_string( n ) );
    int b = Text::GetUnicodeCharStringByteCount( e, n + 2 );
    if ( b != n ) bad( "GetUnicodeCharStringByteCount", s, std::to_string( b ), std::to_string( n ) );
    Raw w( s );
    c = Text::GetUnicodeCharCount( w, n );
    if ( c < 0 || c > n ) bad( "GetUnicodeCharCount max", s, std::to_string( c ), "0.." + std::to_string( n ) );
    int units = Text::GetWideTextCharCount( e );
    std::unique_ptr<uint16[]> out( new uint16[ size_t( units ) + 1 ] );
    Text::ConvertStringToWideText( e, out.get(), units );
    for ( int i = 0; i < n; i++ ) { int k = Text::GetNextUnicodeCharByteCount( w + i, n - i ); if ( k < 1 || k > n - i ) bad( "GetNextUnicodeCharByteCount", s, std::to_string( k ), "" ); k = Text::GetPreviousUnicodeCharByteCount( w + i + 1, i + 1 ); if ( k < 1 || k > i + 1 ) bad( "GetPreviousUnicodeCharByteCount", s, std::to_string( k ), "" ); }
    vf::st.evaluations += 5;
    vf::nontrivial( vf::hashStr( s ) );
}

// UTF-16 with surrogates in any order: pairs are characters, lone surrogates are dropped.
static void wideSoup( const std::vector<uint16>& u )
{
    std::string shown;
    for ( uint16 x : u ) { char b[ 8 ]; snprintf( b, sizeof b, "%04x ", x ); shown += b; }
    std::vector<std::string> chars;
    size_t total = 0;
    for ( size_t i = 0; i < u.size(); i++ )
    {
        uint32_t c = u[ i ];
        if ( c >= 0xD800 && c < 0xDC00 && i + 1 < u.size() && u[ i + 1 ] >= 0xDC00 && u[ i + 1 ] < 0xE000 ) c = 0x10000 + ( ( c - 0xD800 ) << 10 ) + ( u[ ++i ] - 0xDC00u );
        else if ( surrogate( c ) ) continue;
        chars.push_back( utf8( c ) );
        total += chars.back().size();
    }
    std::unique_ptr<uint16[]> w( new uint16[ u.size() + 1 ] );
    for ( size_t i = 0; i < u.size(); i++ ) w[ i ] = u[ i ];
    w[ u.size() ] = 0;
    num( "GetUnicodeStringLength", shown, Text::GetUnicodeStringLength( w.get() ), (long long)total );
    for ( int max = 0; max <= int( total ) + 1; max++ )
    {
        Room room( max );
        Text::ConvertWideTextToString( w.get(), room, max );
        std::string want;
        for ( auto& c : chars ) { if ( want.size() + c.size() > size_t( max ) ) break; want += c; }
        if ( room.text( "ConvertWideTextToString" ) != want ) bad( "ConvertWideTextToString", shown + "max " + std::to_string( max ), room.text( "" ), want );
    }
    vf::st.evaluations++;
    vf::nontrivial( vf::hashStr( "w" + shown ) );
}

static const uint16 kUnits[] = { 0x41, 0xE9, 0x4E00, 0xFFFF, 0xD7FF, 0xE000, 0xD800, 0xDBFF, 0xDC00, 0xDFFF };

// --- comparisons -----------------------------------------------------------------

static std::string fold( std::string s ) { for ( char& c : s ) if ( c >= 'a' && c <= 'z' ) c = char( c - 32 ); return s; }

static int numbered( const std::string& a, const std::string& b )
{
    auto digit = []( char c ) { return c >= '0' && c <= '9'; };
    size_t i = 0, j = 0;
    for ( ;; )
    {
        unsigned char x = i < a.size() ? (unsigned char)a[ i ] : 0, y = j < b.size() ? (unsigned char)b[ j ] : 0;
        if ( digit( char( x ) ) && digit( char( y ) ) )
        {
            size_t ie = i, je = j;
            while ( ie < a.size() && digit( a[ ie ] ) ) ie++;
            while ( je < b.size() && digit( b[ je ] ) ) je++;
            std::string n = a.substr( i, ie - i ), m = b.substr( j, je - j );
            std::string ns = n, ms = m;
            while ( !ns.empty() && ns[ 0 ] == '0' ) ns.erase( 0, 1 );
            while ( !ms.empty() && ms[ 0 ] == '0' ) ms.erase( 0, 1 );
            if ( ns.size() != ms.size() ) return ns.size() < ms.size() ? -1 : 1;
            if ( ns != ms ) return ns < ms ? -1 : 1;
            if ( n.size() != m.size() ) return n.size() < m.size() ? -1 : 1;
            i = ie;
            j = je;
            continue;
        }
        if ( x != y ) return x < y ? -1 : 1;
        if ( !x ) return 0;
        i++;
        j++;
    }
}

static int sgn( int c ) { return c < 0 ? -1 : c > 0 ? 1 : 0; }

static void compareTexts( const std::string& a, const std::string& b, bool raw )
{
    Exact ea( a ), eb( b );
    std::string arg = a + " , " + b;
    int c = sgn( a.compare( b ) ), f = sgn( fold( a ).compare( fold( b ) ) );
    num( "CompareText", arg, Text::CompareText( ea, eb ), c == 0 );
    num( "CompareTextLessThan", arg, Text::CompareTextLessThan( ea, eb ), c < 0 );
    num( "CompareTextLessEqual", arg, Text::CompareTextLessEqual( ea, eb ), c <= 0 );
    num( "CompareTextCaseless", arg, Text::CompareTextCaseless( ea, eb ), f == 0 );
    num( "CompareTextLessThanCaseless", arg, Text::CompareTextLessThanCaseless( ea, eb ), f < 0 );
    num( "CompareTextLessEqualCaseless", arg, Text::CompareTextLessEqualCaseless( ea, eb ), f <= 0 );
    int n = numbered( a, b ), nf = numbered( fold( a ), fold( b ) );
    num( "CompareNumberedTextLessThan", arg, Text::CompareNumberedTextLessThan( ea, eb ), n < 0 );
    num( "CompareNumberedTextLessThanCaseless", arg, Text::CompareNumberedTextLessThanCaseless( ea, eb ), nf < 0 );
    int longest = int( std::max( a.size(), b.size() ) );
    for ( int max = 0; max <= longest + 1; max++ )
    {
        if ( max > 6 && max < longest - 1 ) continue;
        std::string ca = a.substr( 0, size_t( max ) ), cb = b.substr( 0, size_t( max ) ), ma = arg + " max " + std::to_string( max );
        const char *pa = ea, *pb = eb;
        Raw ra( ca ), rb( cb );
        if ( raw && ca.size() == size_t( max ) ) pa = ra; // no terminator within reach
        if ( raw && cb.size() == size_t( max ) ) pb = rb;
        int mc = sgn( ca.compare( cb ) ), mf = sgn( fold( ca ).compare( fold( cb ) ) );
        num( "CompareText max", ma, Text::CompareText( pa, pb, max ), mc == 0 );
        num( "CompareTextLessThan max", ma, Text::CompareTextLessThan( pa, pb, max ), mc < 0 );
        num( "CompareTextLessEqual max", ma, Text::CompareTextLessEqual( pa, pb, max ), mc <= 0 );
        num( "CompareTextCaseless max", ma, Text::CompareTextCaseless( pa, pb, max ), mf == 0 );
        num( "CompareTextLessThanCaseless max", ma, Text::CompareTextLessThanCaseless( pa, pb, max ), mf < 0 );
        num( "CompareTextLessEqualCaseless max", ma, Text::CompareTextLessEqualCaseless( pa, pb, max ), mf <= 0 );
    }
    StringKey sk( ea );
    ConstCharKey ck( ea );
    FileNameKey fk( ea );
    num( "StringKey", arg, ( sk == eb ) * 4 + ( sk != eb ) * 2 + ( sk < eb ), ( c == 0 ) * 4 + ( c != 0 ) * 2 + ( c < 0 ) );
    num( "ConstCharKey", arg, ( ck == eb ) * 4 + ( ck != eb ) * 2 + ( ck < eb ), ( c == 0 ) * 4 + ( c != 0 ) * 2 + ( c < 0 ) );
    num( "FileNameKey", arg, ( fk == eb ) * 4 + ( fk != eb ) * 2 + ( fk < eb ), ( f == 0 ) * 4 + ( f != 0 ) * 2 + ( nf < 0 ) );
    if ( !b.empty() && ( a == b || b.size() < 1000 ) ) // the search takes the product of both lengths
    {
        auto at = []( const std::string& h, const std::string& n ) { size_t p = h.find( n ); return p == std::string::npos ? -1LL : (long long)p; };
        num( "FindText", arg, Text::FindText( ea, eb ), at( a, b ) );
        num( "FindTextCaseless", arg, Text::FindTextCaseless( ea, eb ), at( fold( a ), fold( b ) ) );
    }
}

static void comparePairs( uint64_t i, Rng& )
{
    static std::vector<std::string> w;
    if ( w.empty() )
    {
        const char al[] = "Aab[01\x80";
        w.push_back( "" );
        for ( size_t k = 0; k < w.size(); k++ ) if ( w[ k ].size() < 3 ) for ( int c = 0; c < 7; c++ ) w.push_back( w[ k ] + al[ c ] );
    }
    if ( i >= w.size() ) return;
    for ( auto& b : w ) compareTexts( w[ i ], b, true );
    vf::nontrivial( vf::hashStr( w[ i ] ) );
}

static std::string word( Rng& r, int max )
{
    std::string s;
    int n = r.range( 0, max ), kind = int( r.below( 5 ) );
    for ( int i = 0; i < n; i++ )
        switch ( kind )
        {
            case 0: s += "abAB"[ r.below( 4 ) ]; break;
            case 1: s += char( 1 + r.below( 255 ) ); break;
            case 2: s += "0019ab"[ r.below( 6 ) ]; break;
            case 3: s += "@AZ[`az{/09:\x7f\x80\xff \n"[ r.below( 17 ) ]; break;
            default: s += "a\"\\x/.;'"[ r.below( 8 ) ]; break;
        }
    return s;
}

static void compareRandom( uint64_t, Rng& r )
{
    std::string a = word( r, r.chance( 1, 4 ) ? 60 : 12 ), b = a;
    switch ( r.below( 6 ) )
    {
        case 0: b = word( r, 12 ); break;
        case 1: if ( !b.empty() ) b[ r.below( uint32_t( b.size() ) ) ] ^= 32; break;
        case 2: if ( !b.empty() ) b[ r.below( uint32_t( b.size() ) ) ] = char( 1 + r.below( 255 ) ); break;
        case 3: b = a.substr( r.below( uint32_t( a.size() ) + 1 ) ); b = b.substr( 0, r.below( uint32_t( b.size() ) + 1 ) ); break;
        case 4: { static const char* p[] = { "0", "00", "1", "9", "10", "99999999999", "4294967296", "18446744073709551616", "" }; size_t k = r.below( uint32_t( a.size() ) + 1 ); std::string t = a.substr( k ); b = a.substr( 0, k ) + p[ r.below( 9 ) ] + t; a = a.substr( 0, k ) + p[ r.below( 9 ) ] + t; break; }
        default: b = fold( a ); break;
    }
    for ( char& c : b ) if ( !c ) c = 'n';
    compareTexts( a, b, r.chance( 1, 2 ) );
    compareTexts( b, a, r.chance( 1, 2 ) );
    vf::nontrivial( vf::hashStr( a + "\1" + b ) );
}

// --- searching, copying, scanning -------------------------------------------------

static void scan( uint64_t i, Rng& r )
{
    std::string s = word( r, r.chance( 1, 6 ) ? 200 : 20 );
    Exact e( s );
    uint32_t k = r.chance( 1, 2 ) && !s.empty() ? (unsigned char)s[ r.below( uint32_t( s.size() ) ) ] : 1 + r.below( 255 );
    auto pos = [ & ]( const std::string& t ) { size_t p = t.find( char( k ) ); return p == std::string::npos ? -1LL : (long long)p; };
    std::string arg = s + " " + std::to_string( k );
    num( "FindChar", arg, Text::FindChar( e, k ), pos( s ) );
    num( "FindChar above 255", arg, Text::FindChar( e, k + 256 ), -1 );
    for ( int max : { 0, 1, int( s.size() ) / 2, int( s.size() ), int( s.size() ) + 3 } )
    {
        std::string c = s.substr( 0, size_t( max ) );
        Raw raw( c );
        const char* p = c.size() == size_t( max ) ? (const char*)raw : (const char*)e;
        num( "FindChar max", arg + " " + std::to_string( max ), Text::FindChar( p, k, max ), pos( c ) );
        long long count = 0;
        for ( char x : c ) count += (unsigned char)x == k;
        num( "CountChars", arg + " " + std::to_string( max ), Text::CountChars( p, k, max ), count );
        Room room( max );
        num( "CopyText max", s + " " + std::to_string( max ), Text::CopyText( p, room, max ), (long long)c.size() );
        if ( room.text( "CopyText" ) != c ) bad( "CopyText max", s + " " + std::to_string( max ), room.text( "" ), c );
    }
    Room room( int( s.size() ) );
    num( "CopyText", s, Text::CopyText( e, room ), (long long)s.size() );
    if ( room.text( "CopyText" ) != s ) bad( "CopyText", s, room.text( "" ), s );
    num( "GetTextLength", s, Text::GetTextLength( e ), (long long)s.size() );
    // the part outside quotes; backslashes only inside them
    if ( k != '"' && k != '\\' )
    {
        std::string q;
        long long want = -1;
        bool in = false;
        for ( int n = r.range( 0, 20 ); n > 0; n-- )
        {
            if ( r.chance( 1, 5 ) ) { q += '"'; in = !in; continue; }
            if ( in && r.chance( 1, 4 ) ) { q += '\\'; q += "\"\\xa"[ r.below( 4 ) ]; continue; }
            char c = r.chance( 1, 4 ) ? char( k ) : "abc;"[ r.below( 4 ) ];
            if ( !in && (unsigned char)c == k && want < 0 ) want = (long long)q.size();
            q += c;
        }
        Exact eq( q );
        num( "FindUnquotedChar", q + " for " + std::to_string( k ), Text::FindUnquotedChar( eq, k ), want );
    }
    // paths
    {
        std::string p;
        for ( int n = r.range( 0, 12 ); n > 0; n-- ) p += "ab./"[ r.below( 4 ) ];
        Exact ep( p );
        size_t slash = p.rfind( '/' ), dot = p.rfind( '.' ), first = p.find( '/' );
        num( "GetDirectoryPathLength", p, Text::GetDirectoryPathLength( ep ), slash == std::string::npos ? 0 : (long long)slash + 1 );
        num( "GetPrefixDirectoryLength", p, Text::GetPrefixDirectoryLength( ep ), first == std::string::npos ? 0 : (long long)first + 1 );
        bool ext = dot != std::string::npos && ( slash == std::string::npos || dot > slash );
        num( "GetResourceNameLength", p, Text::GetResourceNameLength( ep ), ext ? (long long)dot : (long long)p.size() );
    }
    // numbers in text
    auto digits = [ & ]( int lo, int hi ) { std::string d; for ( int n = r.range( lo, hi ); n > 0; n-- ) d += char( '0' + r.below( 10 ) ); return d; };
    {
        std::string n = ( r.chance( 1, 3 ) ? "-" : "" ) + digits( 0, 24 ), tail = word( r, 4 );
        if ( !tail.empty() && isdigit( (unsigned char)tail[ 0 ] ) ) tail = "";
        if ( n.empty() && !tail.empty() && tail[ 0 ] == '-' ) tail = "";
        Exact en( n + tail );
        for ( int max : { int( n.size() ), 0, 1, r.range( 0, 30 ), 40 } )
        {
            Room o( max );
            std::string want = n.substr( 0, size_t( max ) );
            num( "ReadInteger", n + tail + " max " + std::to_string( max ), Text::ReadInteger( en, o, max ), (long long)want.size() );
            if ( o.text( "ReadInteger" ) != want ) bad( "ReadInteger", n + tail, o.text( "" ), want );
        }
        n = ( r.chance( 1, 3 ) ? "-" : "" ) + digits( 1, 9 );
        if ( r.chance( 1, 2 ) ) n += "." + digits( 1, 9 );
        if ( r.chance( 1, 2 ) ) n += std::string( r.chance( 1, 2 ) ? "e" : "E" ) + ( r.chance( 1, 2 ) ? "-" : "" ) + digits( 1, 3 );
        tail = std::string( 1, ", x;]\n-+.e"[ r.below( 10 ) ] ) + word( r, 3 );
        if ( tail[ 0 ] == '.' && n.find( '.' ) == std::string::npos ) tail[ 0 ] = '-';
        if ( tail[ 0 ] == 'e' && n.find_first_of( "eE" ) == std::string::npos ) tail[ 0 ] = '/';
        if ( r.chance( 1, 3 ) ) tail = "";
        Exact ef( n + tail );
        for ( int max : { int( n.size() ), 0, 1, r.range( 0, 30 ), 40 } )
        {
            Room o( max );
            std::string want = n.substr( 0, size_t( max ) );
            num( "ReadFloat", n + tail + " max " + std::to_string( max ), Text::ReadFloat( ef, o, max ), (long long)want.size() );
            if ( o.text( "ReadFloat" ) != want ) bad( "ReadFloat", n + tail, o.text( "" ), want );
        }
    }
    // strings in text
    {
        std::string body, want;
        bool quoted = r.chance( 1, 2 ), closed = !r.chance( 1, 5 );
        for ( int n = r.range( 0, 14 ); n > 0; n-- )
        {
            char c = quoted ? "ab \n/\x01\xff'"[ r.below( 8 ) ] : "ab'\"\\\xff.:"[ r.below( 8 ) ];
            if ( r.chance( 1, 2 ) ) c = char( r.range( quoted ? 1 : 33, 255 ) );
            if ( r.chance( 1, 6 ) ) c = quoted ? ' ' : '!';
            if ( quoted && ( c == '"' || c == '\\' ) ) c = 'q';
            if ( !quoted && c == '/' && !body.empty() && body.back() == '/' ) c = 'q';
            if ( !quoted && body.empty() && c == '"' ) c = 'q';
            if ( quoted && r.chance( 1, 4 ) ) { body += '\\'; c = r.chance( 1, 2 ) ? '"' : r.chance( 1, 2 ) ? '\\' : 'k'; }
            body += c;
            want += c;
        }
        if ( !quoted && !body.empty() && body.back() == '/' ) { body += '.'; want += '.'; }
        std::string full = quoted ? "\"" + body + ( closed ? "\"" : "" ) : body;
        std::string tail = quoted ? ( closed ? word( r, 4 ) : "" ) : r.chance( 1, 3 ) ? "" : std::string( r.chance( 1, 3 ) ? "//" : r.chance( 1, 2 ) ? " " : "\n" ) + word( r, 4 );
        Exact es( full + tail );
        int big = int( full.size() + 2 );
        Room o( big );
        num( "ReadString", full + tail, Text::ReadString( es, o, big ), (long long)full.size() );
        if ( o.text( "ReadString" ) != want ) bad( "ReadString", full + tail, o.text( "" ), want );
        int max = r.range( 0, big );
        Room o2( max );
        int got = Text::ReadString( es, o2, max );
        std::string t = o2.text( "ReadString" );
        if ( got < 0 || got > int( full.size() ) || want.compare( 0, t.size(), t ) != 0 ) bad( "ReadString", full + tail + " max " + std::to_string( max ), t, "a beginning of " + want );
    }
    {
        std::string body;
        uint32_t want = 0;
        for ( int n = r.range( 0, 5 ); n > 0; n-- )
        {
            char c = "abcd1 \xff\""[ r.below( 8 ) ];
            if ( r.chance( 1, 3 ) ) { c = char( r.range( 1, 255 ) ); if ( c == '\'' || c == '\\' ) c = '('; }
            if ( r.chance( 1, 6 ) ) { body += '\\'; c = r.chance( 1, 2 ) ? '\'' : '\\'; }
            body += c;
            want = want << 8 | (unsigned char)c;
        }
        bool closed = !r.chance( 1, 6 );
        std::string full = "'" + body + ( closed ? "'" : "" );
        Exact et( full + ( closed ? word( r, 3 ) : "" ) );
        uint32 type = 99;
        num( "ReadType", full, Text::ReadType( et, &type ), (long long)full.size() );
        num( "ReadType value", full, type, want );
        Exact en( "x" + full );
        num( "ReadType without quote", full, Text::ReadType( en, &type ), 0 );
        num( "ReadType without quote value", full, type, 0 );
    }
    vf::nontrivial( vf::hashStr( s ) );
    if ( i < 6 ) vf::sample( s );
}

// Texts around and beyond the limits of 16-bit numbers.
static void longTexts( uint64_t i, Rng& r )
{
    size_t n = size_t( vf::hugeSize( r ) );
    std::string a( n, 'a' ), b;
    if ( i % 3 == 1 ) for ( size_t k = 0; k < n; k++ ) a[ k ] = char( 'a' + ( k * 7 + k / 5 ) % 26 );
    if ( i % 3 == 2 ) for ( size_t k = 0; k < n; k++ ) a[ k ] = char( k % 9 == 4 ? '/' : '0' + k % 10 );
    size_t late = n - 1 - r.below( 3 ), any = r.below( uint32_t( n ) );
    for ( int v = 0; v < 6; v++ )
    {
        b = a;
        if ( v == 1 ) b[ late ] = '!';
        if ( v == 2 ) b[ any ] = '~';
        if ( v == 3 ) b.resize( late );
        if ( v == 4 ) b = fold( a );
        if ( v == 5 ) b = a.substr( n - 5 ); // found at the far end
        compareTexts( a, b, v & 1 );
        compareTexts( b, a, false );
    }
    Exact e( a );
    std::string arg = std::to_string( n ) + " characters " + a.substr( 0, 20 );
    num( "GetTextLength", arg, Text::GetTextLength( e ), (long long)n );
    std::string m = a;
    m[ late ] = '#';
    if ( i & 1 ) m[ any ] = '/', m[ late ] = '#';
    Exact em( m );
    std::string middle = m.substr( n / 2, 40 ) + "#";
    num( "FindText", arg, Text::FindText( em, Exact( middle ) ), m.find( middle ) == std::string::npos ? -1LL : (long long)m.find( middle ) );
    num( "FindChar", arg, Text::FindChar( em, '#' ), (long long)late );
    num( "FindUnquotedChar", arg, Text::FindUnquotedChar( em, '#' ), (long long)late );
    for ( size_t max : { n, n - 1, late, late + 1, n + 7 } )
    {
        std::string c = m.substr( 0, max );
        size_t at = c.find( '#' );
        num( "FindChar max", arg, Text::FindChar( em, '#', int32( max ) ), at == std::string::npos ? -1LL : (long long)at );
        num( "CountChars", arg, Text::CountChars( em, (unsigned char)a[ 0 ], int32( max ) ), (long long)std::count( c.begin(), c.end(), a[ 0 ] ) );
        Room room{ int( max ) };
        num( "CopyText max", arg, Text::CopyText( em, room, int32( max ) ), (long long)c.size() );
        if ( room.text( "CopyText" ) != c ) bad( "CopyText max", arg, room.text( "" ), c );
    }
    Room whole{ int( n ) };
    num( "CopyText", arg, Text::CopyText( em, whole ), (long long)n );
    if ( whole.text( "CopyText" ) != m ) bad( "CopyText", arg, whole.text( "" ), m );
    std::string path = a;
    for ( char& c : path ) if ( c == '/' || c == '.' ) c = 'p';
    path[ any ] = '/';
    path[ late ] = '.';
    Exact ep( path );
    num( "GetDirectoryPathLength", arg, Text::GetDirectoryPathLength( ep ), any == late ? 0 : (long long)any + 1 );
    num( "GetPrefixDirectoryLength", arg, Text::GetPrefixDirectoryLength( ep ), any == late ? 0 : (long long)any + 1 );
    num( "GetResourceNameLength", arg, Text::GetResourceNameLength( ep ), late > any || any == late ? (long long)late : (long long)n );
    std::string quoted = "\"" + std::string( n, 'q' ) + "\"", digits( n, '7' ), fraction = "0." + digits + "e5";
    Exact eq( quoted + "z" ), ed( "-" + digits + "x" ), ef( fraction + "," );
    Room o{ int( n ) + 9 };
    num( "ReadString", arg, Text::ReadString( eq, o, int32( n ) + 9 ), (long long)n + 2 );
    if ( o.text( "ReadString" ) != quoted.substr( 1, n ) ) bad( "ReadString", arg, std::to_string( o.text( "" ).size() ), std::to_string( n ) );
    num( "ReadInteger", arg, Text::ReadInteger( ed, o, int32( n ) + 9 ), (long long)n + 1 );
    if ( o.text( "ReadInteger" ) != "-" + digits ) bad( "ReadInteger", arg, std::to_string( o.text( "" ).size() ), std::to_string( n + 1 ) );
    num( "ReadFloat", arg, Text::ReadFloat( ef, o, int32( n ) + 9 ), (long long)n + 4 );
    if ( o.text( "ReadFloat" ) != fraction ) bad( "ReadFloat", arg, std::to_string( o.text( "" ).size() ), std::to_string( n + 4 ) );
    // characters of one to four bytes
    static const uint32_t kinds[] = { 'x', 0xE9, 0x4E00, 0x1F600 };
    std::string u;
    std::vector<uint16> wide;
    for ( size_t k = 0; k < n; k++ )
    {
        uint32_t c = kinds[ i % 5 == 4 ? k % 4 : i % 5 ];
        u += utf8( c );
        if ( c >= 0x10000 ) { wide.push_back( uint16( 0xD800 + ( ( c - 0x10000 ) >> 10 ) ) ); c = 0xDC00 + ( ( c - 0x10000 ) & 0x3ff ); }
        wide.push_back( uint16( c ) );
    }
    arg = std::to_string( n ) + " characters " + u.substr( 0, 8 );
    Exact eu( u );
    num( "GetUnicodeCharCount", arg, Text::GetUnicodeCharCount( eu ), (long long)n );
    num( "GetUnicodeCharCount max", arg, Text::GetUnicodeCharCount( eu, int32( u.size() ) ), (long long)n );
    num( "GetUnicodeCharStringByteCount", arg, Text::GetUnicodeCharStringByteCount( eu, int32( n ) ), (long long)u.size() );
    num( "GetWideTextCharCount", arg, Text::GetWideTextCharCount( eu ), (long long)wide.size() );
    std::unique_ptr<uint16[]> out( new uint16[ wide.size() + 1 ] );
    Text::ConvertStringToWideText( eu, out.get(), int32( wide.size() ) );
    wide.push_back( 0 );
    if ( memcmp( out.get(), wide.data(), wide.size() * 2 ) != 0 ) vf::fail( "ConvertStringToWideText differs (" + arg + ")" );
    num( "GetUnicodeStringLength", arg, Text::GetUnicodeStringLength( wide.data() ), (long long)u.size() );
    Room back{ int( u.size() ) };
    Text::ConvertWideTextToString( wide.data(), back, int32( u.size() ) );
    if ( back.text( "ConvertWideTextToString" ) != u ) vf::fail( "ConvertWideTextToString differs (" + arg + ")" );
    vf::st.evaluations += 2;
    vf::nontrivial( vf::hashStr( a + u ) );
}

// --- formatting ------------------------------------------------------------------

template <class F> static void formatted( const char* fn, const std::string& want, F f )
{
    for ( int max = 0; max <= int( want.size() ) + 2; max++ )
    {
        Room room( max );
        long long n = f( (char*)room, max );
        std::string t = room.text( fn );
        std::string w = want.substr( 0, size_t( max ) );
        if ( t != w ) bad( fn, want + " max " + std::to_string( max ), t, w );
        num( fn, want + " max " + std::to_string( max ) + " (length)", n, (long long)w.size() );
    }
}

static void integer( uint64_t v )
{
    formatted( "IntegerToString", std::to_string( int32( v ) ), [ & ]( char* p, int max ) { return Text::IntegerToString( int32( v ), p, max ); } );
    formatted( "Integer64ToString", std::to_string( int64_t( v ) ), [ & ]( char* p, int max ) { return Text::Integer64ToString( int64( v ), p, max ); } );
    formatted( "UnsignedInteger64ToString", std::to_string( v ), [ & ]( char* p, int max ) { return Text::UnsignedInteger64ToString( v, p, max ); } );
    auto text = []( const char* fn, const std::string& got, const std::string& want ) { if ( got != want ) bad( fn, want, got, want ); vf::st.evaluations++; };
    text( "IntegerToString", std::string( Text::IntegerToString( int32( v ) ) ), std::to_string( int32( v ) ) );
    text( "Integer64ToString", std::string( Text::Integer64ToString( int64( v ) ) ), std::to_string( int64_t( v ) ) );
    char b[ 40 ];
    snprintf( b, 40, "%016llX", (unsigned long long)v );
    text( "Integer64ToHexString16", std::string( Text::Integer64ToHexString16( v ) ), b );
    snprintf( b, 40, "%08X", uint32_t( v ) );
    text( "IntegerToHexString8", std::string( Text::IntegerToHexString8( uint32( v ) ) ), b );
    text( "IntegerToHexString4", std::string( Text::IntegerToHexString4( uint32( v ) ) ), b + 4 );
    text( "IntegerToHexString2", std::string( Text::IntegerToHexString2( uint32( v ) ) ), b + 6 );
    uint32_t t = uint32_t( v );
    std::string chars;
    for ( int s = 24; s >= 0; s -= 8 ) if ( t >> s & 255 ) chars += char( t >> s & 255 );
    if ( ( t >> 24 & 255 ) && ( t >> 16 & 255 ) && ( t >> 8 & 255 ) && ( t & 255 ) )
    {
        text( "TypeToString", std::string( Text::TypeToString( t ) ), chars );
        text( "TypeToHexCharString", std::string( Text::TypeToHexCharString( t ) ), std::string( "0x" ) + b + " '" + chars + "'" );
    }
    else if ( ( t >> 16 & 255 ) && ( t >> 8 & 255 ) && ( t & 255 ) ) text( "TypeToString", std::string( Text::TypeToString( t ) ), chars );
    // a type from a text and back
    std::string name = chars.substr( 0, size_t( v % 5 ) );
    if ( name.size() )
    {
        Exact e( name );
        uint32_t want = 0;
        for ( size_t i = 0; i < 4; i++ ) want = want << 8 | ( i < name.size() ? (unsigned char)name[ i ] : 0 );
        num( "StringToType", name, Text::StringToType( e ), want );
        text( "TypeToString", std::string( Text::TypeToString( want ) ), name );
    }
    vf::nontrivial( vf::hashBytes( &v, 8 ) );
}

static void floatText( float f )
{
    char big[ 80 ];
    memset( big, 0x77, sizeof big );
    int n = Text::FloatToString( f, big, 63 );
    std::string s( big, strnlen( big, sizeof big ) );
    char arg[ 40 ];
    snprintf( arg, 40, "%.9g", f );
    num( "FloatToString length", arg, n, (long long)s.size() );
    if ( std::isnan( f ) || std::isinf( f ) )
    {
        std::string want = std::string( std::signbit( f ) ? "-" : "" ) + ( std::isnan( f ) ? "NAN" : "INF" );
        if ( s != want ) bad( "FloatToString", arg, s, want );
    }
    else
    {
        char* end;
        double v = strtod( s.c_str(), &end );
        if ( s.empty() || *end ) bad( "FloatToString", arg, s, "a number" );
        // approximate by design: denormals become zero, and few digits follow a run of zeros behind the point
        double tolerance = std::fabs( f ) < 1.1754944e-38 ? 1.2e-38 : std::fabs( f ) * 0.005 + ( std::fabs( f ) > 9e-5 && std::fabs( f ) < 0.02 ? 2e-5 : 0 );
        if ( !( std::fabs( v - f ) <= tolerance ) ) bad( "FloatToString", arg, s, "about that number" );
    }
    for ( int max = 0; max <= 24; max++ )
    {
        Room room( max );
        int k = Text::FloatToString( f, room, max );
        std::string t = room.text( "FloatToString" );
        num( "FloatToString length", std::string( arg ) + " max " + std::to_string( max ), k, (long long)t.size() );
    }
}

static void hashes()
{
    auto h = []( const char* s, uint32_t want ) { num( "Hash", s, Text::Hash( s ), want ); };
    h( "", 0 );
    h( "a", Text::StaticHash<'a'>::value );
    h( "ab", Text::StaticHash<'a', 'b'>::value );
    h( "foobar", Text::StaticHash<'f', 'o', 'o', 'b', 'a', 'r'>::value );
    h( "FOOBAR", Text::StaticHash<'F', 'O', 'O', 'B', 'A', 'R'>::value );
    h( "0123456789ABCDEFG", Text::StaticHash<'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F', 'G'>::value );
}

static void all()
{
    vf::stream( "hash", 1, []( uint64_t, Rng& ) { hashes(); } );
    vf::stream( "codes", 0x110200 / 256, []( uint64_t i, Rng& ) { for ( uint32_t c = uint32_t( i ) * 256; c < uint32_t( i + 1 ) * 256; c++ ) codePoint( c ); if ( i == 0 ) for ( uint32_t c : { 0x200000u, 0x7fffffffu, 0x80000000u, 0xffffffffu } ) codePoint( c ); vf::nontrivial( vf::hashBytes( &i, 8 ) ); } );
    vf::stream( "bytes", 256 * 256, []( uint64_t i, Rng& ) {
        static const unsigned char edge[] = { 0, 1, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xff };
        unsigned char b[ 8 ] = {};
        b[ 0 ] = (unsigned char)( i / 256 );
        b[ 1 ] = (unsigned char)( i % 256 );
        for ( auto x : edge ) for ( auto y : edge ) { b[ 2 ] = x; b[ 3 ] = y; unicodeBytes( b, 4 ); }
        vf::nontrivial( vf::hashBytes( b, 2 ) );
    } );
    vf::stream( "unicode", vf::scaled( 40000 ), unicodeText );
    vf::stream( "soup", vf::scaled( 60000 ), unicodeSoup );
    vf::stream( "units", 11111, []( uint64_t i, Rng& ) {
        // the i-th sequence of up to four units
        std::vector<uint16> u;
        uint64_t n = 1;
        size_t len = 0;
        while ( i >= n ) { i -= n; n *= 10; len++; }
        for ( size_t k = 0; k < len; k++ ) { u.push_back( kUnits[ i % 10 ] ); i /= 10; }
        wideSoup( u );
    } );
    vf::stream( "unitsoup", vf::scaled( 20000 ), []( uint64_t, Rng& r ) {
        std::vector<uint16> u;
        for ( int n = r.range( 0, 14 ); n; n-- ) { uint32_t c = r.below( 3 ) ? kUnits[ r.below( 10 ) ] : r.chance( 1, 2 ) ? 0xD800 + r.below( 0x800 ) : r.range( 1, 0xffff ); u.push_back( uint16( c ) ); }
        wideSoup( u );
    } );
    vf::stream( "pairs", 400, comparePairs );
    vf::stream( "compare", vf::scaled( 60000 ), compareRandom );
    vf::stream( "scan", vf::scaled( 60000 ), scan );
    vf::stream( "long", vf::scaled( 30 ), longTexts );
    vf::stream( "integers", 200000 + 64 * 40, []( uint64_t i, Rng& r ) {
        if ( i < 20000 ) integer( i );
        else if ( i < 30000 ) integer( uint64_t( 0 ) - i );
        else if ( i < 40000 ) integer( uint64_t( int64_t( int32_t( 0x7fffffff - ( i - 35000 ) ) ) ) );
        else if ( i < 200000 ) { if ( i < vf::scaled( 60000 ) ) integer( r.next() >> r.below( 64 ) ); }
        else { uint64_t j = i - 200000; uint64_t p = 1; if ( j % 2 ) p = uint64_t( 1 ) << ( j / 40 ); else for ( uint64_t k = 0; k < j / 128; k++ ) p *= 10; integer( p + ( j % 40 ) - 20 ); integer( uint64_t( 0 ) - p + ( j % 40 ) - 20 ); }
    } );
    vf::stream( "floats", vf::scaled( 3000 ), []( uint64_t i, Rng& r ) {
        for ( int k = 0; k < 40; k++ )
        {
            uint32_t b = uint32_t( r.next() );
            if ( k == 0 ) { static const uint32_t e[] = { 0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00000u, 0x7f7fffffu, 0x00800000u, 0x007fffffu, 1u, 0x3f800000u, 0x3f7fffffu, 0x47c35000u, 0x47c34fffu, 0x38d1b717u, 0x38d1b716u }; b = e[ i % 16 ]; }
            if ( k == 1 ) b = uint32_t( i % 255 ) << 23 | ( r.chance( 1, 2 ) ? 0x7fffff : 0 );
            float f;
            memcpy( &f, &b, 4 );
            floatText( f );
        }
        vf::nontrivial( i * 0x9E3779B97F4A7C15ULL );
    } );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
