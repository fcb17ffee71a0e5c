// C15: String<> and String<N> against std::string over operation histories.
#include "common.h"
#include "TSString.h"

#include <memory>
#include <utility>

using namespace Terathon;
using vf::Rng;

static std::string trace;

[[noreturn]] static void bad( const std::string& what ) { vf::fail( what + "; after " + vf::shown( trace, 900 ) ); }

static void note( const std::string& s ) { trace += s; trace += "; "; }
static std::string brief( const std::string& s ) { return s.size() > 24 ? "[" + std::to_string( s.size() ) + "]" : "\"" + s + "\""; }

static std::string text( Rng& r, int len )
{
    std::string o;
    int kind = int( r.below( 5 ) );
    for ( int i = 0; i < len; i++ )
    {
        int c;
        switch ( kind )
        {
            case 0: c = 'a' + int( r.below( 3 ) ); break;
            case 1: c = 32 + int( r.below( 95 ) ); break;
            case 2: c = 1 + int( r.below( 255 ) ); break;
            case 3: c = "AZaz@[`{\"\\\x7f\x80\xff\n\r\t\a\x01\x1f "[ r.below( 21 ) ]; break;
            default: c = r.chance( 1, 8 ) ? 1 + int( r.below( 255 ) ) : 'x'; break;
        }
        if ( ( c & 0xff ) == 0 ) c = 'n';
        o += char( c );
    }
    return o;
}

static bool hugeLengths = false;

static int length( Rng& r )
{
    if ( hugeLengths && r.chance( 1, 3 ) ) return vf::hugeSize( r );
    static const int edges[] = { 0, 1, 2, 14, 15, 16, 17, 30, 31, 32, 47, 48, 58, 59, 60, 61, 62, 63, 64, 65, 66, 95, 96, 122, 123, 124, 125, 126, 127, 128, 129, 186, 187, 188, 189, 190, 191, 192, 193, 250, 251, 252, 253, 254, 255, 256 };
    if ( r.chance( 1, 2 ) ) return edges[ r.below( sizeof edges / sizeof *edges ) ];
    if ( r.chance( 1, 40 ) ) return r.range( 256, 5000 );
    return r.range( 0, r.chance( 1, 2 ) ? 20 : 140 );
}

// A NUL-terminated copy with nothing readable behind it.
struct Exact
{
    std::unique_ptr<char[]> p;
    explicit Exact( const std::string& s ) : p( new char[ s.size() + 1 ] ) { memcpy( p.get(), s.c_str(), s.size() + 1 ); }
    operator const char*() const { return p.get(); }
};
// Without terminator.
struct Raw
{
    std::unique_ptr<char[]> p;
    explicit Raw( const std::string& s ) : p( new char[ s.size() ] ) { memcpy( p.get(), s.data(), s.size() ); }
    operator const char*() const { return p.get(); }
};

static int32 int32s( Rng& r ) { static const int32 e[] = { 0, 1, -1, 9, 10, -10, 99, 100, 999999999, 1000000000, 2147483647, -2147483647, int32( 0x80000000 ), -2147483646 }; return r.chance( 1, 2 ) ? e[ r.below( 14 ) ] : int32( r.next() ) >> r.below( 31 ); }
static int64 int64s( Rng& r ) { static const int64 e[] = { 0, 1, -1, 10, 4294967296LL, -4294967296LL, 9223372036854775807LL, -9223372036854775807LL - 1, 1000000000000000000LL, -1000000000000000000LL, 999999999999999999LL }; return r.chance( 1, 2 ) ? e[ r.below( 11 ) ] : int64( r.next() ) >> r.below( 63 ); }
static uint64 uint64s( Rng& r ) { return r.chance( 1, 4 ) ? ~uint64( 0 ) - r.below( 3 ) : r.next() >> r.below( 64 ); }
static uint32 uint32s( Rng& r ) { return r.chance( 1, 3 ) ? ~uint32( 0 ) - r.below( 3 ) : uint32( r.next() ) >> r.below( 32 ); }
static float floats( Rng& r )
{
    static const float e[] = { 0.0f, -0.0f, 1.0f, -1.0f, 0.1f, 99999.0f, 100000.0f, 1.0e-4f, 3.4e38f, 1.2e-38f, 1e-45f, 0.99999994f, 9.9999f, 65535.9f, 12345.678f };
    if ( r.chance( 1, 2 ) ) return e[ r.below( 15 ) ];
    uint32_t b = uint32_t( r.next() );
    float f;
    memcpy( &f, &b, 4 );
    return f;
}
static std::string floatText( float f ) { char b[ 128 ]; Text::FloatToString( f, b, 63 ); return b; }

static std::string escaped( const std::string& s )
{
    std::string o;
    char b[ 8 ];
    for ( unsigned char c : s )
    {
        switch ( c )
        {
            case '\a': o += "\\a"; break;
            case '\b': o += "\\b"; break;
            case '\t': o += "\\t"; break;
            case '\n': o += "\\n"; break;
            case '\v': o += "\\v"; break;
            case '\f': o += "\\f"; break;
            case '\r': o += "\\r"; break;
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            default:
                if ( c < 32 || c == 127 ) { snprintf( b, 8, "\\x%02X", c ); o += b; }
                else o += char( c );
        }
    }
    return o;
}

// UTF-16 of well-formed random characters and its UTF-8.
static void wide( Rng& r, int n, std::vector<uint16>& w, std::string& utf8 )
{
    for ( int i = 0; i < n; i++ )
    {
        uint32_t c = r.chance( 1, 3 ) ? 1 + r.below( 127 ) : r.chance( 1, 2 ) ? 0x80 + r.below( 0x780 ) : r.chance( 1, 2 ) ? 0x800 + r.below( 0xD000 ) : 0x10000 + r.below( 0x100000 );
        if ( c < 0x80 ) utf8 += char( c );
        else if ( c < 0x800 ) { utf8 += char( 0xC0 | c >> 6 ); utf8 += char( 0x80 | ( c & 63 ) ); }
        else if ( c < 0x10000 ) { utf8 += char( 0xE0 | c >> 12 ); utf8 += char( 0x80 | ( c >> 6 & 63 ) ); utf8 += char( 0x80 | ( c & 63 ) ); }
        else { utf8 += char( 0xF0 | c >> 18 ); utf8 += char( 0x80 | ( c >> 12 & 63 ) ); utf8 += char( 0x80 | ( c >> 6 & 63 ) ); utf8 += char( 0x80 | ( c & 63 ) ); }
        if ( c < 0x10000 ) w.push_back( uint16( c ) );
        else { c -= 0x10000; w.push_back( uint16( 0xD800 + ( c >> 10 ) ) ); w.push_back( uint16( 0xDC00 + ( c & 0x3ff ) ) ); }
    }
    w.push_back( 0 );
}

static void same( const String<>& s, const std::string& m, const char* who )
{
    const char* p = s;
    if ( s.GetStringLength() != int32( m.size() ) ) bad( std::string( who ) + " reports length " + std::to_string( s.GetStringLength() ) + ", not " + std::to_string( m.size() ) );
    if ( memcmp( p, m.c_str(), m.size() + 1 ) != 0 ) bad( std::string( who ) + " holds \"" + vf::shown( p, 80 ) + "\", not \"" + vf::shown( m, 80 ) + "\"" );
}

static int sign( const std::string& a, const std::string& b ) { int c = a.compare( b ); return c < 0 ? -1 : c > 0 ? 1 : 0; }

template <class S> static void ordered( const S& a, const std::string& ma, const char* b, const std::string& mb )
{
    int c = sign( ma, mb );
    if ( ( a == b ) != ( c == 0 ) || ( a != b ) != ( c != 0 ) || ( a < b ) != ( c < 0 ) || ( a <= b ) != ( c <= 0 ) || ( a > b ) != ( c > 0 ) || ( a >= b ) != ( c >= 0 ) )
        bad( "comparison of \"" + vf::shown( ma, 60 ) + "\" with \"" + vf::shown( mb, 60 ) + "\" is wrong" );
}

// --- dynamic strings -----------------------------------------------------------

struct Dyn
{
    static constexpr int n = 4;
    std::unique_ptr<String<>> s[ n ];
    std::string m[ n ];
    Rng& r;
    explicit Dyn( Rng& g ) : r( g ) { for ( auto& p : s ) p.reset( new String<> ); }

    void check()
    {
        for ( int i = 0; i < n; i++ ) same( *s[ i ], m[ i ], "a string" );
        vf::st.evaluations++;
    }
    // What is left of a moved string is its text or nothing.
    void moved( int i )
    {
        std::string left( (const char*)*s[ i ] );
        if ( left != m[ i ] && !left.empty() ) bad( "a moved-from string holds neither its text nor nothing" );
        m[ i ] = left;
        same( *s[ i ], left, "a moved-from string" );
    }
    void make( int i, String<>* p ) { s[ i ].reset( p ); }

    void step()
    {
        int i = int( r.below( n ) ), j = int( r.below( n ) );
        String<>& a = *s[ i ];
        std::string& ma = m[ i ];
        std::string t = text( r, length( r ) );
        std::string id = std::to_string( i ) + "," + std::to_string( j );
        if ( ma.size() > 6000 ) { note( "purge " + id ); a.PurgeString(); ma.clear(); return; }
        switch ( r.below( 40 ) )
        {
            case 0: { note( "=text " + id + brief( t ) ); Exact e( t ); if ( &( a = (const char*)e ) != &a ) bad( "assignment returns another string" ); ma = t; break; }
            case 1: note( "=copy " + id ); a = *s[ j ]; ma = std::string( m[ j ] ); break;
            case 2: note( "=move " + id ); { std::string o = m[ j ]; a = std::move( *s[ j ] ); if ( i != j ) { ma = o; moved( j ); } else { moved( i ); if ( ma != o ) bad( "self-move lost the text" ); } } break;
            case 3: note( "new copy " + id ); if ( i != j ) { make( i, new String<>( *s[ j ] ) ); ma = m[ j ]; } break;
            case 4: note( "new move " + id ); if ( i != j ) { std::string o = m[ j ]; make( i, new String<>( std::move( *s[ j ] ) ) ); ma = o; moved( j ); } break;
            case 5: { note( "new text " + id + brief( t ) ); Exact e( t ); make( i, new String<>( (const char*)e ) ); ma = t; break; }
            case 6:
            {
                int k = r.range( 0, int( t.size() ) + 3 );
                note( "new text,len " + id + brief( t ) + std::to_string( k ) );
                if ( k <= int( t.size() ) && r.chance( 1, 2 ) ) { Raw e( t.substr( 0, size_t( k ) ) ); make( i, new String<>( e, k ) ); }
                else { Exact e( t ); make( i, new String<>( e, k ) ); }
                ma = t.substr( 0, size_t( k ) );
                break;
            }
            case 7: { std::vector<uint16> w; std::string u; wide( r, r.range( 0, 70 ), w, u ); note( "new wide " + id + brief( u ) ); std::unique_ptr<uint16[]> p( new uint16[ w.size() ] ); memcpy( p.get(), w.data(), w.size() * 2 ); make( i, new String<>( (const uint16*)p.get() ) ); ma = u; break; }
            case 8: { int32 v = int32s( r ); note( "new int32 " + id + " " + std::to_string( v ) ); make( i, new String<>( v ) ); ma = std::to_string( v ); break; }
            case 9: { uint32 v = uint32s( r ); note( "new uint32 " + id + " " + std::to_string( v ) ); make( i, new String<>( v ) ); ma = std::to_string( v ); break; }
            case 10: { int64 v = int64s( r ); note( "new int64 " + id + " " + std::to_string( v ) ); make( i, new String<>( v ) ); ma = std::to_string( v ); break; }
            case 11: { float v = floats( r ); note( "new float " + id + " " + std::to_string( v ) ); make( i, new String<>( v ) ); ma = floatText( v ); break; }
            case 12: { int32 v = int32s( r ); note( "=int32 " + id + " " + std::to_string( v ) ); a = v; ma = std::to_string( v ); break; }
            case 13: { uint32 v = uint32s( r ); note( "=uint32 " + id + " " + std::to_string( v ) ); a = v; ma = std::to_string( v ); break; }
            case 14: { int64 v = int64s( r ); note( "=int64 " + id + " " + std::to_string( v ) ); a = v; ma = std::to_string( v ); break; }
            case 15: { float v = floats( r ); note( "=float " + id + " " + std::to_string( v ) ); a = v; ma = floatText( v ); break; }
            case 16: case 17: note( "+=string " + id ); { std::string o = m[ j ]; a += *s[ j ]; ma += o; } break;
            case 18: { note( "+=text " + id + brief( t ) ); Exact e( t ); a += (const char*)e; ma += t; break; }
            case 19: case 20: { char c = char( r.range( 1, 255 ) ); note( "+=char " + id ); a += c; ma += c; break; }
            case 21: { int32 v = int32s( r ); note( "+=int32 " + id + " " + std::to_string( v ) ); a += v; ma += std::to_string( v ); break; }
            case 22: { uint32 v = uint32s( r ); note( "+=uint32 " + id + " " + std::to_string( v ) ); a += v; ma += std::to_string( v ); break; }
            case 23: { int64 v = int64s( r ); note( "+=int64 " + id + " " + std::to_string( v ) ); a += v; ma += std::to_string( v ); break; }
            case 24: { uint64 v = uint64s( r ); note( "+=uint64 " + id + " " + std::to_string( v ) ); a += v; ma += std::to_string( v ); break; }
            case 25:
            {
                int k = r.range( 0, int( t.size() ) + ( r.chance( 1, 4 ) ? 5 : 0 ) );
                note( "append " + id + brief( t ) + std::to_string( k ) );
                if ( k <= int( t.size() ) && r.chance( 1, 2 ) ) { Raw e( t.substr( 0, size_t( k ) ) ); a.AppendString( e, k ); }
                else { Exact e( t ); a.AppendString( e, k ); }
                ma += t.substr( 0, size_t( k ) );
                break;
            }
            case 26:
            {
                int k = r.range( 0, int( t.size() ) + 3 );
                note( "set " + id + brief( t ) + std::to_string( k ) );
                if ( k <= int( t.size() ) && r.chance( 1, 2 ) ) { Raw e( t.substr( 0, size_t( k ) ) ); a.Set( e, k ); }
                else { Exact e( t ); a.Set( e, k ); }
                ma = t.substr( 0, size_t( k ) );
                break;
            }
            case 27: case 28:
            {
                int k = r.chance( 1, 2 ) ? r.range( 0, int( ma.size() ) ) : length( r );
                note( "length " + id + " " + std::to_string( k ) );
                a.SetStringLength( k );
                if ( size_t( k ) <= ma.size() ) ma.resize( size_t( k ) );
                else
                {
                    // The new part is unspecified; the user fills it.
                    if ( a.GetStringLength() != k ) bad( "SetStringLength does not set the length" );
                    if ( memcmp( (const char*)a, ma.data(), ma.size() ) != 0 ) bad( "SetStringLength changes the text it keeps" );
                    if ( ( (const char*)a )[ k ] != 0 ) bad( "SetStringLength does not terminate the text" );
                    std::string fill = text( r, k - int( ma.size() ) );
                    memcpy( (char*)a + ma.size(), fill.data(), fill.size() );
                    ma += fill;
                }
                break;
            }
            case 29: note( "lower " + id ); a.ConvertToLowerCase(); for ( char& c : ma ) if ( c >= 'A' && c <= 'Z' ) c = char( c + 32 ); break;
            case 30: note( "upper " + id ); a.ConvertToUpperCase(); for ( char& c : ma ) if ( c >= 'a' && c <= 'z' ) c = char( c - 32 ); break;
            case 31: { char x = ma.empty() ? 'q' : ma[ r.below( uint32_t( ma.size() ) ) ], y = char( r.range( 1, 255 ) ); note( "replace " + id ); a.ReplaceChar( x, y ); for ( char& c : ma ) if ( c == x ) c = y; break; }
            case 32: note( "escape " + id ); a.EncodeEscapeSequences(); ma = escaped( ma ); break;
            case 33: note( "purge " + id ); a.PurgeString(); ma.clear(); break;
            case 34: { note( "concat text " + id + brief( t ) ); Exact e( t ); String<> c( a + (const char*)e ); same( c, ma + t, "a concatenation" ); if ( i != j ) { *s[ j ] = std::move( c ); m[ j ] = ma + t; } break; }
            case 35: { note( "concat string " + id ); String<> c( a + *s[ j ] ); same( c, ma + m[ j ], "a concatenation" ); std::string o = ma + m[ j ]; a = c; ma = o; break; }
            case 36: { int32 v = int32s( r ); uint32 u = uint32s( r ); int64 w = int64s( r ); note( "concat numbers " + id + " " + std::to_string( v ) + " " + std::to_string( u ) + " " + std::to_string( w ) ); same( a + v, ma + std::to_string( v ), "a concatenation" ); same( a + u, ma + std::to_string( u ), "a concatenation" ); String<> c( a + w ); same( c, ma + std::to_string( w ), "a concatenation" ); *s[ j ] = std::move( c ); m[ j ] = ma + std::to_string( w ); break; }
            case 37: { size_t k = r.below( uint32_t( ma.size() ) + 1 ); note( "=part of itself " + id + " " + std::to_string( k ) ); a = (const char*)a + k; ma = ma.substr( k ); break; }
            case 38: { size_t k = r.below( uint32_t( ma.size() ) + 1 ), l = r.below( uint32_t( ma.size() - k ) + 1 ); note( "set part of itself " + id + " " + std::to_string( k ) + " " + std::to_string( l ) ); a.Set( (const char*)a + k, int32( l ) ); ma = ma.substr( k, l ); break; }
            case 39: { size_t k = r.below( uint32_t( ma.size() ) + 1 ); note( "+=part of itself " + id + " " + std::to_string( k ) ); if ( r.chance( 1, 2 ) ) a += (const char*)a + k; else a.AppendString( (const char*)a + k, int32( ma.size() - k ) ); ma += ma.substr( k ); break; }
        }
        vf::event( "steps observed" );
    }
    void compare()
    {
        int i = int( r.below( n ) ), j = int( r.below( n ) );
        std::string other = r.chance( 1, 2 ) ? m[ j ] : m[ i ];
        if ( r.chance( 1, 3 ) && !other.empty() ) other[ r.below( uint32_t( other.size() ) ) ] = char( r.range( 1, 255 ) );
        else if ( r.chance( 1, 3 ) ) other = other.substr( 0, r.below( uint32_t( other.size() ) + 1 ) );
        Exact e( other );
        ordered( *s[ i ], m[ i ], e, other );
        ordered( *s[ i ], m[ i ], *s[ j ], m[ j ] );
        if ( ( *s[ i ] == *s[ j ] ) != ( m[ i ] == m[ j ] ) || ( *s[ i ] != *s[ j ] ) != ( m[ i ] != m[ j ] ) ) bad( "equality of strings is wrong" );
        vf::event( "comparisons" );
    }
};

static void dynamicHistory( uint64_t i, Rng& r )
{
    trace.clear();
    Dyn d( r );
    int steps = r.range( 2, 40 );
    for ( int k = 0; k < steps; k++ ) { d.step(); d.check(); if ( k % 4 == 3 ) d.compare(); }
    d.compare();
    vf::nontrivial( vf::hashStr( trace ) );
    if ( i < 3 ) vf::sample( trace );
}

// All pairs of lengths, from inline, heap and roomy strings.
static void pair( uint64_t i, int la, int lb )
{
    std::string ta, tb;
    for ( int k = 0; k < la; k++ ) ta += char( 'a' + k % 26 );
    for ( int k = 0; k < lb; k++ ) tb += char( 'A' + k % 26 );
    Exact ea( ta ), eb( tb );
    for ( int how = 0; how < 5; how++ )
    {
        auto fresh = [ & ]() {
            String<> s( (const char*)ea );
            switch ( how )
            {
                case 1: return String<>( static_cast<const String<>&>( s ) ); // copy: heap
                case 2: { String<> t( "x" ); for ( int k = 0; k < 300; k++ ) t += 'y'; t = s; return t; } // shrunk
                case 3: { String<> t; for ( int k = 0; k < la; k++ ) t += ta[ size_t( k ) ]; return t; } // grown by characters
                case 4: { String<> t( s ); t += (const char*)eb; t.SetStringLength( la ); return t; }
                default: return s;
            }
        };
        trace = "lengths " + std::to_string( la ) + " and " + std::to_string( lb ) + ", origin " + std::to_string( how ) + "; ";
        String<> b( (const char*)eb );
        { String<> s( fresh() ); same( s, ta, "origin" ); s += (const char*)eb; same( s, ta + tb, "+= text" ); s += 'z'; same( s, ta + tb + "z", "+= char" ); }
        { String<> s( fresh() ); s += b; same( s, ta + tb, "+= string" ); s += s; same( s, ta + tb + ta + tb, "+= itself" ); same( b, tb, "operand" ); }
        { String<> s( fresh() ); s = (const char*)eb; same( s, tb, "= text" ); }
        { String<> s( fresh() ); s = b; same( s, tb, "= string" ); s = s; same( s, tb, "= itself" ); same( b, tb, "operand" ); }
        { String<> s( fresh() ), t( b ); s = std::move( t ); same( s, tb, "= moved" ); t = (const char*)ea; same( t, ta, "reuse of moved" ); same( s, tb, "move target" ); }
        { String<> s( fresh() ); s.Set( eb, lb / 2 ); same( s, tb.substr( 0, size_t( lb / 2 ) ), "Set" ); }
        { String<> s( fresh() ); s.AppendString( eb, lb ); same( s, ta + tb, "AppendString" ); }
        { String<> s( fresh() ); same( s + (const char*)eb, ta + tb, "concatenation" ); same( s, ta, "operand" ); }
        { String<> s( fresh() ); s.SetStringLength( lb ); if ( lb <= la ) same( s, ta.substr( 0, size_t( lb ) ), "SetStringLength" ); else { memset( (char*)s + la, 'f', size_t( lb - la ) ); same( s, ta + std::string( size_t( lb - la ), 'f' ), "SetStringLength" ); } s += 'q'; if ( s.GetStringLength() != lb + 1 ) bad( "length after growth" ); }
        { String<> s( fresh() ); if ( how == 4 ) same( s, ta, "shrunk" ); s += int32( -7 ); same( s, ta + "-7", "+= int32" ); s += int64( -9223372036854775807LL - 1 ); same( s, ta + "-7-9223372036854775808", "+= int64" ); }
        vf::st.evaluations += 10;
    }
    vf::nontrivial( vf::hashBytes( &i, 8 ) );
}
static void pairs( uint64_t i, Rng& ) { pair( i, int( i / 151 ), int( i % 151 ) ); }
static void hugePairs( uint64_t i, Rng& r )
{
    int la = vf::hugeSize( r ), lb = i % 3 == 0 ? vf::hugeSize( r ) : i % 3 == 1 ? r.range( 1, 300 ) : la + r.range( -70, 70 );
    if ( i & 1 ) std::swap( la, lb );
    pair( 1000000 + i, la, lb );
}

// Escaping of all bytes and lengths.
static void escapes( uint64_t i, Rng& )
{
    trace = "escape case " + std::to_string( i );
    std::string t;
    if ( i < 256 * 3 ) { if ( i % 256 ) t = std::string( i / 256 * 7, 'x' ) + char( i % 256 ) + std::string( i / 256 * 3, 'y' ); }
    else t = std::string( ( i - 768 ) % 200, "\x01\n\"x"[ ( i - 768 ) / 200 ] );
    Exact e( t );
    String<> s( (const char*)e );
    s.EncodeEscapeSequences();
    same( s, escaped( t ), "an escaped string" );
    s += 'k';
    same( s, escaped( t ) + "k", "an escaped string" );
    vf::st.evaluations++;
    vf::nontrivial( vf::hashStr( t ) );
}

// --- fixed strings ---------------------------------------------------------------

template <int N> struct Guarded { unsigned char g1[ 24 ]; String<N> s; unsigned char g2[ 24 ]; };

template <int N> static void fixedHistory( Rng& r )
{
    std::unique_ptr<Guarded<N>> q[ 2 ];
    std::string m[ 2 ];
    for ( auto& p : q ) { p.reset( new Guarded<N> ); memset( p->g1, 0xA5, 24 ); memset( p->g2, 0x5A, 24 ); p->s = ""; }
    auto cut = []( const std::string& s ) { return s.substr( 0, N ); };
    auto check = [ & ]() {
        for ( int i = 0; i < 2; i++ )
        {
            for ( int k = 0; k < 24; k++ ) if ( q[ i ]->g1[ k ] != 0xA5 || q[ i ]->g2[ k ] != 0x5A ) bad( "String<" + std::to_string( N ) + "> writes outside itself" );
            const char* p = q[ i ]->s;
            if ( q[ i ]->s.GetStringLength() != int32( m[ i ].size() ) || memcmp( p, m[ i ].c_str(), m[ i ].size() + 1 ) != 0 )
                bad( "String<" + std::to_string( N ) + "> holds \"" + vf::shown( std::string( p, strnlen( p, N + 1 ) ), 70 ) + "\", not \"" + vf::shown( m[ i ], 70 ) + "\"" );
        }
        vf::st.evaluations++;
    };
    int steps = r.range( 2, 24 );
    trace = "String<" + std::to_string( N ) + "> ";
    for ( int k = 0; k < steps; k++ )
    {
        int i = int( r.below( 2 ) ), j = int( r.below( 2 ) );
        String<N>& a = q[ i ]->s;
        std::string& ma = m[ i ];
        std::string t = text( r, r.chance( 1, 2 ) ? r.range( 0, N + 4 ) : r.range( 0, 2 * N + 20 ) );
        std::string id = std::to_string( i ) + "," + std::to_string( j );
        switch ( r.below( 22 ) )
        {
            case 0: { note( "=text " + id + brief( t ) ); Exact e( t ); a = (const char*)e; ma = cut( t ); break; }
            case 1: note( "=copy " + id ); a = q[ j ]->s; ma = std::string( m[ j ] ); break;
            case 2: { note( "new copy " + id ); String<N> c( q[ j ]->s ); a = c; ma = std::string( m[ j ] ); break; }
            case 3: { note( "new text " + id + brief( t ) ); Exact e( t ); String<N> c( (const char*)e ); a = c; ma = cut( t ); break; }
            case 4: { int l = r.range( 0, int( t.size() ) + 3 ); note( "new text,len " + id + brief( t ) + std::to_string( l ) ); Exact e( t ); String<N> c( e, l ); a = c; ma = cut( t.substr( 0, size_t( l ) ) ); break; }
            case 5: { int l = r.range( 0, int( t.size() ) + 3 ); note( "set " + id + brief( t ) + std::to_string( l ) ); Exact e( t ); a.Set( e, l ); ma = cut( t.substr( 0, size_t( l ) ) ); break; }
            case 6: { int32 v = int32s( r ); note( "int32 " + id + " " + std::to_string( v ) ); if ( r.chance( 1, 2 ) ) a = v; else { String<N> c( v ); a = c; } ma = cut( std::to_string( v ) ); break; }
            case 7: { uint32 v = uint32s( r ); note( "uint32 " + id + " " + std::to_string( v ) ); if ( r.chance( 1, 2 ) ) a = v; else { String<N> c( v ); a = c; } ma = cut( std::to_string( v ) ); break; }
            case 8: { int64 v = int64s( r ); note( "int64 " + id + " " + std::to_string( v ) ); if ( r.chance( 1, 2 ) ) a = v; else { String<N> c( v ); a = c; } ma = cut( std::to_string( v ) ); break; }
            case 9: { float v = floats( r ); note( "float " + id + " " + std::to_string( v ) ); if ( r.chance( 1, 2 ) ) a = v; else { String<N> c( v ); a = c; } if ( N >= 31 ) ma = floatText( v ); else { ma = std::string( (const char*)a, strnlen( a, N + 1 ) ); if ( ma.size() > N ) bad( "a float is not terminated" ); } break; } // truncated floats lose digits in their own way
            case 10: { note( "+=text " + id + brief( t ) ); Exact e( t ); a += (const char*)e; ma = cut( ma + t ); break; }
            case 11: { note( "+=fixed " + id ); std::string o = m[ j ]; a += (const char*)q[ j ]->s; ma = cut( ma + o ); break; }
            case 12: case 13: { char c = char( r.range( 1, 255 ) ); note( "+=char " + id ); a += c; ma = cut( ma + c ); break; }
            case 14: { int32 v = int32s( r ); note( "+=int32 " + id + " " + std::to_string( v ) ); a += v; ma = cut( ma + std::to_string( v ) ); break; }
            case 15: { uint32 v = uint32s( r ); note( "+=uint32 " + id + " " + std::to_string( v ) ); a += v; ma = cut( ma + std::to_string( v ) ); break; }
            case 16: { int64 v = int64s( r ); note( "+=int64 " + id + " " + std::to_string( v ) ); a += v; ma = cut( ma + std::to_string( v ) ); break; }
            case 17: { uint64 v = uint64s( r ); note( "+=uint64 " + id + " " + std::to_string( v ) ); a += v; ma = cut( ma + std::to_string( v ) ); break; }
            case 18: { int l = r.range( 0, int( t.size() ) ); note( "append " + id + brief( t ) + std::to_string( l ) ); Exact e( t ); a.AppendString( e, l ); ma = cut( ma + t.substr( 0, size_t( l ) ) ); break; }
            case 19: { int l = r.range( 0, int( ma.size() ) ); note( "length " + id + " " + std::to_string( l ) ); a.SetStringLength( l ); ma.resize( size_t( l ) ); break; }
            case 20: { note( "concat " + id + brief( t ) ); Exact e( t ); String<N> c( a + (const char*)e ); int32 v = int32s( r ); int64 w = int64s( r ); uint32 u = uint32s( r ); String<N> d( a + v ), f( a + w ), g( a + u );
                if ( std::string( d ) != cut( ma + std::to_string( v ) ) || std::string( f ) != cut( ma + std::to_string( w ) ) || std::string( g ) != cut( ma + std::to_string( u ) ) ) bad( "concatenation with a number is wrong" );
                q[ j ]->s = c; m[ j ] = cut( ma + t ); break; }
            case 21:
                if constexpr ( N >= 4 )
                {
                    char c[ 5 ] = { char( r.range( 1, 255 ) ), char( r.range( 0, 3 ) * 60 ), char( r.range( 1, 255 ) ), char( r.range( 1, 255 ) ), 0 };
                    note( "chars " + id );
                    String<N> v( c[ 0 ], c[ 1 ], c[ 2 ], c[ 3 ] );
                    a = v;
                    ma = std::string( c );
                }
                break;
        }
        check();
        if ( k % 3 == 2 )
        {
            Exact e( m[ j ] );
            ordered( a, ma, e, m[ j ] );
            std::string other = ma;
            if ( !other.empty() ) other[ r.below( uint32_t( other.size() ) ) ] = char( r.range( 1, 255 ) );
            Exact o( other );
            ordered( a, ma, o, other );
            if ( ( a == q[ j ]->s ) != ( ma == m[ j ] ) || ( a != q[ j ]->s ) != ( ma != m[ j ] ) ) bad( "equality of fixed strings is wrong" );
        }
        vf::event( "fixed steps observed" );
    }
    vf::nontrivial( vf::hashStr( trace ) );
}

static void all()
{
    vf::stream( "pairs", 151 * 151, pairs );
    vf::stream( "hugepairs", vf::scaled( 60 ), hugePairs );
    vf::stream( "escapes", 768 + 800, escapes );
    vf::stream( "dynamic", vf::scaled( 160000 ), dynamicHistory );
    vf::stream( "huge", vf::scaled( 160 ), []( uint64_t, Rng& r ) {
        trace.clear();
        hugeLengths = true;
        Dyn d( r );
        for ( int k = 0; k < 8; k++ ) { d.step(); d.check(); if ( k % 4 == 3 ) d.compare(); }
        hugeLengths = false;
        vf::nontrivial( vf::hashStr( trace ) );
    } );
    vf::stream( "fixed", vf::scaled( 60000 ), []( uint64_t i, Rng& r ) {
        switch ( i % 10 )
        {
            case 0: fixedHistory<1>( r ); break;
            case 1: fixedHistory<2>( r ); break;
            case 2: fixedHistory<3>( r ); break;
            case 3: fixedHistory<4>( r ); break;
            case 4: fixedHistory<7>( r ); break;
            case 5: fixedHistory<15>( r ); break;
            case 6: fixedHistory<16>( r ); break;
            case 7: fixedHistory<31>( r ); break;
            case 8: fixedHistory<63>( r ); break;
            default: fixedHistory<127>( r ); break;
        }
    } );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
