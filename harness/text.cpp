// Monitors of the text interface: C01 C03 C04 C06 C07 C19.
#include "lib.h"
#include "texts.h"

using namespace lib;
using vf::Rng;

static std::string scratch;      // directory for files
static uint64_t    counter = 0;  // texts seen
static int         fileEvery = 8;
static bool        every( uint64_t n ) { return !vf::st.replay.empty() || counter % n == 0; }

[[noreturn]] static void bad( const std::string& what, const std::string& text )
{
    vf::fail( what + " | text: " + vf::shown( text, 400 ) + ( text.size() <= 2000 ? " | hex " + vf::hex( text ) : "" ) );
}

static std::string show( const ParseResult& p ) { return std::string( statusName( p.status ) ) + " at " + std::to_string( p.errorLine ) + ":" + std::to_string( p.errorColumn ); }

static bool undecided( const std::string& s, const ref::Result& r )
{
    return r.nulEscape || r.depth > 500 || r.encodedSurrogate || s.compare( 0, 3, "\xef\xbb\xbf" ) == 0;
}

static std::string fileName( const char* n ) { return scratch + "/" + n + "." + std::to_string( vf::st.shard ); }

static void viaFile( StructuredData& d, const std::string& s, ParseResult& p )
{
    std::string f = fileName( "in" );
    vf::writeAll( f, s );
    p = d.Parse( f.c_str() );
}

// ---- C03 -------------------------------------------------------------------

static void acceptance( const std::string& s, Rng& )
{
    counter++;
    ref::Result r = ref::read( s, false );
    if ( undecided( s, r ) ) { vf::event( "outside the property" ); return; }
    vf::st.evaluations++;
    bool file = every( uint64_t( fileEvery ) ) && s.size() <= 65534;
    for ( int way = 0; way < ( file ? 2 : 1 ); way++ )
    {
        StructuredData d;
        ParseResult p;
        if ( way ) { viaFile( d, s, p ); vf::event( "through a file" ); }
        else p = parse( d, s );
        if ( ( p.status == Status::kOk ) != r.ok )
            bad( std::string( way ? "file: " : "" ) + ( r.ok ? "an RFC 8259 text is refused with " + show( p ) : "a text outside the grammar is accepted (" + std::to_string( r.fault ) + " at byte " + std::to_string( r.hi ) + ")" ), s );
    }
    vf::event( r.ok ? "accepted" : "refused:" + std::to_string( r.fault ) );
    if ( r.ok || r.hi > 0 ) vf::nontrivial( vf::hashStr( s ) );
    if ( r.ok && r.escapes && r.values > 3 ) vf::sample( s );
}

static void c03()
{
    texts::Sizes z;
    z.valid = 30000;
    z.mutants = 120000;
    texts::all( z, acceptance );
    // file size limit: 65534 bytes are accepted
    vf::stream( "filesize", 40, [ & ]( uint64_t i, Rng& r ) {
        std::string s = "[\"";
        size_t n = 65534 - size_t( i ) * ( i < 8 ? 1 : 1677 );
        s += std::string( n - 4, 'q' ) + "\"]";
        StructuredData d;
        ParseResult p;
        viaFile( d, s, p );
        if ( p.status != Status::kOk ) bad( "a valid file of " + std::to_string( n ) + " bytes is refused with " + show( p ), s.substr( 0, 10 ) );
        vf::st.evaluations++;
        (void)r;
    } );
    // buffers of several megabytes
    vf::stream( "large", 12, [ & ]( uint64_t i, Rng& r ) {
        std::string s = "[";
        gen::Opt o;
        while ( s.size() < 300000 * ( i + 1 ) ) { if ( s.size() > 1 ) s += ","; s += gen::document( r, o ); }
        acceptance( s + "]", r );
        acceptance( s, r );
        acceptance( s + "]]", r );
        acceptance( s + ",]", r );
    } );
    vf::stream( "huge", gen::kHuge * ( vf::st.scale > 2 ? 16 : 3 ), [ & ]( uint64_t i, Rng& r ) {
        std::string s = gen::huge( r, i );
        acceptance( s, r );
        acceptance( s + "]", r );
        acceptance( s.substr( 0, s.size() - 1 ), r );
        acceptance( "{\"a\":" + s + ",}", r );
        acceptance( "[" + s + ",01]", r );
    } );
}

// ---- C04 -------------------------------------------------------------------

static void denotation( const std::string& s, Rng& )
{
    counter++;
    ref::Result r = ref::read( s );
    if ( !r.ok || undecided( s, r ) || r.loneSurrogate ) { vf::event( "outside the property" ); return; }
    vf::st.evaluations++;
    bool file = every( uint64_t( fileEvery ) ) && s.size() <= 65534;
    for ( int way = 0; way < ( file ? 2 : 1 ); way++ )
    {
        StructuredData d;
        ParseResult p;
        if ( way ) { viaFile( d, s, p ); vf::event( "through a file" ); }
        else p = parse( d, s );
        if ( p.status != Status::kOk ) { vf::event( "refused" ); return; } // C03's business
        const StructuredData& cd = d;
        if ( !d.GetRootJsonValue() || cd.GetRootJsonValue() != d.GetRootJsonValue() ) bad( "an accepted text has no root value", s );
        uint64_t visited = 0;
        std::string e = compare( cd.GetRootJsonValue(), r.root, visited );
        if ( !e.empty() ) bad( "the tree is not what the text denotes: " + e, s );
        vf::event( "values compared", visited );
    }
    if ( r.duplicates ) vf::event( "texts with repeated names" );
    if ( r.pairs ) vf::event( "texts with surrogate pairs" );
    if ( r.escapes ) vf::event( "texts with escapes" );
    if ( r.values > 1 || r.escapes ) vf::nontrivial( vf::hashStr( s ) );
    if ( r.escapes && r.values > 3 ) vf::sample( s );
}

static void c04()
{
    texts::Sizes z;
    z.tokens = 4;
    z.digits = 4;
    z.chars = 3;
    z.valid = 60000;
    z.mutants = 10000;
    z.garbage = 0;
    texts::all( z, denotation );
    // two strings after each other: nothing of one may show in the other
    vf::stream( "stringpairs", vf::scaled( 20000 ), [ & ]( uint64_t, Rng& r ) {
        std::string s = "[";
        gen::Opt o;
        int n = r.range( 1, 6 );
        for ( int i = 0; i < n; i++ ) { if ( i ) s += ","; gen::string( r, s, o ); }
        denotation( s + "]", r );
    } );
    vf::stream( "objects", vf::scaled( 6000 ), [ & ]( uint64_t i, Rng& r ) {
        denotation( gen::bigObject( r, r.range( 1, i % 10 ? 40 : 800 ), int( i ) ), r );
    } );
    // all orders of up to 7 names
    vf::stream( "orders", 5914, [ & ]( uint64_t i, Rng& r ) {
        uint64_t k = i;
        int n = 1;
        uint64_t f = 1;
        while ( k >= f ) { k -= f; n++; f *= uint64_t( n ); }
        std::vector<int> pool;
        for ( int a = 0; a < n; a++ ) pool.push_back( a );
        std::string s = "{";
        for ( int a = 0; a < n; a++ )
        {
            f /= uint64_t( n - a );
            size_t j = size_t( k / f );
            k %= f;
            s += ( a ? ",\"" : "\"" ) + std::string( 1, char( 'a' + pool[ j ] ) ) + "\":" + std::to_string( pool[ j ] );
            pool.erase( pool.begin() + long( j ) );
        }
        denotation( s + "}", r );
    } );
    vf::stream( "large", vf::scaled( 240 ), [ & ]( uint64_t i, Rng& r ) { denotation( gen::large( r, r.range( 50, i % 8 ? 2000 : 40000 ) ), r ); } );
    vf::stream( "huge", gen::kHuge * ( vf::st.scale > 2 ? 16 : 3 ), [ & ]( uint64_t i, Rng& r ) { denotation( gen::huge( r, i ), r ); } );
    vf::stream( "largestrings", 24, [ & ]( uint64_t i, Rng& r ) {
        std::string s = "[\"";
        gen::Opt o;
        size_t n = 60000 + size_t( i ) * 12345;
        while ( s.size() < n ) gen::stringChar( r, s, o );
        denotation( s + "\",\"end\"]", r );
    } );
}

// ---- C06 -------------------------------------------------------------------

// Every line that begins inside the document is indented by its nesting: the number of the first such line that is not.
static size_t wrongIndentation( const std::string& t, size_t width, char fill )
{
    size_t line = 1, depth = 0;
    bool quoted = false;
    for ( size_t i = 0; i < t.size(); i++ )
    {
        char c = t[ i ];
        if ( quoted ) { if ( c == '\\' ) i++; else if ( c == '"' ) quoted = false; continue; }
        if ( c == '"' ) quoted = true;
        else if ( c == '[' || c == '{' ) depth++;
        else if ( c == ']' || c == '}' ) depth--;
        else if ( c == '\n' )
        {
            line++;
            size_t n = 0;
            while ( i + 1 + n < t.size() && t[ i + 1 + n ] == fill ) n++;
            if ( i + 1 + n == t.size() ) return 0;
            char next = t[ i + 1 + n ];
            size_t d = depth - ( next == ']' || next == '}' );
            if ( n != d * width ) return line;
        }
    }
    return 0;
}

static uint32 givenWidth = 0; // or random

static void writing( const std::string& s, Rng& rng )
{
    counter++;
    ref::Result r = ref::read( s );
    if ( !r.ok || undecided( s, r ) || r.loneSurrogate ) { vf::event( "outside the property" ); return; }
    StructuredData d;
    ParseResult p = parse( d, s );
    if ( p.status != Status::kOk ) return;
    uint64_t visited = 0;
    if ( !compare( d.GetRootJsonValue(), r.root, visited ).empty() ) return; // C04's business
    bool finite = true;
    std::function<void( const ref::Node& )> scan = [ & ]( const ref::Node& n ) {
        if ( n.kind == ref::kNumber && n.number - n.number != 0 ) finite = false;
        for ( auto& c : n.items ) scan( c );
        for ( auto& c : n.members ) scan( c.second );
    };
    scan( r.root );
    static const int  widths[] = { 0, 1, 2, 3, 4, 7, 8, 16, 33, 64, 100 };
    static const char fills[]  = { ' ', '\t', ' ', '\t', '\n', '\r' };
    bool defaults = rng.chance( 1, 6 );
    uint32 width  = uint32( widths[ rng.below( r.depth > 20 ? 5 : 11 ) ] );
    if ( givenWidth ) width = givenWidth;
    char   fill   = fills[ rng.below( 6 ) ];
    if ( r.depth <= 6 && r.values < 40 && rng.chance( 1, 60 ) )
    {
        static const int wide[] = { 127, 128, 254, 255, 256, 257, 300, 1000, 4095, 4096, 32768, 65535, 65536, 65537 };
        width = uint32( wide[ rng.below( 14 ) ] );
        vf::event( "wide indentation" );
    }
    std::string f = fileName( "out" );
    switch ( rng.below( 4 ) )
    {
        case 0: unlink( f.c_str() ); break;
        case 1: vf::writeAll( f, "" ); break;
        case 2: vf::writeAll( f, std::string( s.size() * 3 + 5000, '#' ) ); break;
        default: break; // what the previous case left
    }
    Status w = defaults ? d.Write( f.c_str() ) : d.Write( f.c_str(), width, fill );
    vf::st.evaluations++;
    std::string how = defaults ? " (default indentation)" : " (indentation " + std::to_string( width ) + " of " + std::to_string( int( fill ) ) + ")";
    if ( !finite )
    {
        if ( w == Status::kOk ) bad( "a document with a non-finite number is written with success" + how, s );
        vf::event( "refused non-finite" );
        return;
    }
    if ( w != Status::kOk ) bad( std::string( "writing fails with " ) + statusName( w ) + how, s );
    std::string out = vf::readAll( f );
    ref::Result o = ref::read( out );
    if ( !o.ok ) bad( "the written file is not an RFC 8259 text (byte " + std::to_string( o.hi ) + "): " + vf::shown( out, 300 ) + how, s );
    std::string e = compare( o.root, r.root, true );
    if ( !e.empty() ) bad( "the written file denotes another document: " + e + how, s );
    if ( o.duplicates ) bad( "the written file repeats a name" + how, s );
    if ( !defaults && ( fill == ' ' || fill == '\t' ) )
    {
        size_t at = wrongIndentation( out, width, fill );
        if ( at ) bad( "line " + std::to_string( at ) + " of the written file is not indented by its nesting" + how + ": " + vf::shown( out, 300 ), s );
        vf::event( "indentation checked" );
    }
    vf::event( "bytes read back", out.size() );
    // the document itself is unchanged and can be written again with the same outcome
    if ( rng.chance( 1, 4 ) )
    {
        visited = 0;
        e = compare( d.GetRootJsonValue(), r.root, visited );
        if ( !e.empty() ) bad( "writing changed the document: " + e, s );
        Status w2 = defaults ? d.Write( f.c_str() ) : d.Write( f.c_str(), width, fill );
        if ( w2 != Status::kOk || vf::readAll( f ) != out ) bad( "writing again gives another file" + how, s );
        vf::event( "written twice" );
    }
    // the library reads its own output
    StructuredData d2;
    ParseResult p2;
    if ( out.size() <= 65534 ) p2 = d2.Parse( f.c_str() );
    else p2 = parse( d2, out );
    if ( p2.status != Status::kOk ) bad( "the library refuses its own output with " + show( p2 ) + how, s );
    visited = 0;
    e = compare( d2.GetRootJsonValue(), r.root, visited );
    if ( !e.empty() ) bad( "re-reading gives another document: " + e + how, s );
    vf::event( "values compared", visited );
    if ( r.values > 1 ) vf::nontrivial( vf::hashStr( s, uint64_t( width ) * 256 + uint64_t( fill ) ) );
    if ( r.escapes && r.values > 3 ) vf::sample( s );
}

// Documents holding any string or number, made through the public tree and through serialization.
static void c06()
{
    texts::Sizes z;
    z.tokens = 3;
    z.digits = 3;
    z.chars = 2;
    z.valid = 12000;
    z.mutants = 1500;
    z.garbage = 0;
    z.pairs3 = false;
    texts::all( z, writing );
    vf::stream( "objects", vf::scaled( 600 ), [ & ]( uint64_t i, Rng& r ) { writing( gen::bigObject( r, r.range( 1, i % 10 ? 30 : 300 ), int( i ) ), r ); } );
    vf::stream( "numbers2", vf::scaled( 2000 ), [ & ]( uint64_t, Rng& r ) {
        std::string s = "[";
        for ( int i = 0; i < 20; i++ )
        {
            uint64_t u = r.next();
            double d;
            memcpy( &d, &u, 8 );
            if ( d - d != 0 ) d = 0.1;
            char b[ 64 ];
            snprintf( b, sizeof b, "%.17g", d );
            s += ( i ? "," : "" ) + std::string( b );
        }
        writing( s + "]", r );
    } );
    // strings set through the tree: arbitrary bytes. Well-formed UTF-8 must survive, ill-formed must be refused.
    vf::stream( "setstrings", vf::scaled( 8000 ) + 256, [ & ]( uint64_t i, Rng& r ) {
        std::string t;
        if ( i < 256 ) t = std::string( 1, char( i ) );
        else if ( i % 2 ) { int n = r.range( 0, 12 ); for ( int k = 0; k < n; k++ ) ref::appendUtf8( t, r.chance( 1, 4 ) ? uint32_t( r.range( 1, 0x7f ) ) : gen::codePoint( r ) ); }
        else { t = gen::bytes( r, r.range( 1, 6 ) ); }
        if ( i > 255 && r.chance( 1, 8 ) ) t = std::string( size_t( gen::boundaryLength( r ) ), 'p' ) + t;
        for ( char& c : t ) if ( !c ) c = 1;
        if ( t == std::string( 1, '\0' ) ) t = "";
        bool ok = true, sur = false;
        for ( size_t k = 0; k < t.size(); )
        {
            size_t b;
            int n = ref::utf8Length( reinterpret_cast<const unsigned char*>( t.data() ) + k, reinterpret_cast<const unsigned char*>( t.data() ) + t.size(), &b, &sur );
            if ( !n ) { ok = false; break; }
            k += size_t( n );
        }
        if ( sur ) return;
        StructuredData d;
        bool asName = i % 3 == 0;
        ObjectMap<String<>> m;
        auto* el = new ObjectMapElement<String<>>;
        el->name = asName ? t.c_str() : "n";
        el->data = asName ? "v" : t.c_str();
        m.InsertMapElement( el );
        if ( d.SerializeFrom( m ) != Status::kOk ) bad( "a map of strings cannot be serialized", t );
        std::string f = fileName( "out" );
        vf::writeAll( f, std::string( 3000, '#' ) );
        Status w = d.Write( f.c_str() );
        vf::st.evaluations++;
        if ( !ok )
        {
            if ( w == Status::kOk ) bad( "a string of ill-formed UTF-8 is written with success", t );
            vf::event( "refused ill-formed" );
            return;
        }
        if ( w != Status::kOk ) bad( std::string( "a well-formed string cannot be written: " ) + statusName( w ), t );
        ref::Result o = ref::read( vf::readAll( f ) );
        if ( !o.ok || o.root.kind != ref::kObject || o.root.members.size() != 1 || o.root.members[ 0 ].first != ( asName ? t : "n" ) || o.root.members[ 0 ].second.kind != ref::kString || o.root.members[ 0 ].second.text != ( asName ? "v" : t ) )
            bad( "the written file does not denote the string: " + vf::shown( vf::readAll( f ), 300 ), t );
        vf::nontrivial( vf::hashStr( t, 99 ) );
        vf::event( "set strings written" );
    } );
    // non-finite numbers set through serialization, at several places
    vf::stream( "nonfinite", 12, [ & ]( uint64_t i, Rng& ) {
        double v[] = { std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::quiet_NaN() };
        double x = v[ i % 4 ];
        StructuredData d;
        if ( i / 4 == 0 ) d.SerializeFrom( x );
        else if ( i / 4 == 1 ) { Array<double> a; a.AppendArrayElement( 1.0 ); a.AppendArrayElement( x ); d.SerializeFrom( a ); }
        else { std::map<std::string, double> m { { "a", 1 }, { "b", x } }; d.SerializeFrom( m ); }
        vf::st.evaluations++;
        if ( d.Write( fileName( "out" ).c_str() ) == Status::kOk ) bad( "a non-finite number is written with success", dbl( x ) );
        vf::event( "refused non-finite" );
    } );
    vf::stream( "huge", gen::kHuge * ( vf::st.scale > 2 ? 16 : 3 ), [ & ]( uint64_t i, Rng& r ) { writing( gen::huge( r, i ), r ); } );
    // more than 65536 characters of indentation, made up of both
    vf::stream( "deepwide", 4, [ & ]( uint64_t i, Rng& r ) {
        static const int depth[] = { 260, 300, 150, 70 }, width[] = { 254, 220, 500, 1000 };
        std::string s = "1";
        for ( int k = 0; k < depth[ i ]; k++ ) s = k % 3 ? "[" + s + "]" : "{\"a\":" + s + "}";
        givenWidth = uint32( width[ i ] );
        writing( s, r );
        givenWidth = 0;
    } );
    // beyond the size the library itself reads from a file
    vf::stream( "large1", vf::scaled( 120 ), [ & ]( uint64_t i, Rng& r ) { writing( gen::large( r, r.range( 50, i % 8 ? 1500 : 20000 ) ), r ); } );
    vf::stream( "large", 4, [ & ]( uint64_t i, Rng& r ) {
        std::string s = "[";
        gen::Opt o;
        while ( s.size() < 40000 * ( i + 1 ) ) { if ( s.size() > 1 ) s += ","; s += gen::document( r, o ); }
        writing( s + "]", r );
    } );
}

// ---- C07 -------------------------------------------------------------------

static std::set<Status> expected( const ref::Result& r, const std::string& s )
{
    using S = Status;
    std::set<S> e;
    switch ( r.fault )
    {
        case ref::fValue: e = { S::kExpectedJsonValue }; break;
        case ref::fNumber: e = { S::kFloatInvalid, S::kExpectedJsonValue }; break;
        case ref::fLeadingZero:
        {
            e = { S::kNumbersCannotHaveLeadingZeros };
            // a number that is malformed behind its leading zero as well may be called invalid
            size_t k = r.hi;
            auto digits = [ & ]() { size_t b = k; while ( k < s.size() && s[ k ] >= '0' && s[ k ] <= '9' ) k++; return k > b; };
            digits();
            bool fine = true;
            if ( k < s.size() && s[ k ] == '.' ) { k++; fine = digits(); }
            if ( fine && k < s.size() && ( s[ k ] == 'e' || s[ k ] == 'E' ) ) { k++; if ( k < s.size() && ( s[ k ] == '+' || s[ k ] == '-' ) ) k++; fine = digits(); }
            if ( !fine ) { e.insert( S::kFloatInvalid ); e.insert( S::kExpectedJsonValue ); }
            break;
        }
        case ref::fLiteral: e = { S::kExpectedJsonValue, s[ r.lo ] == 'n' ? S::kExpectedNull : S::kExpectedTrueOrFalse }; break;
        case ref::fStringChar: e = { S::kStringIllegalChar }; break;
        case ref::fStringEscape: e = { S::kStringIllegalEscape }; break;
        case ref::fStringEnd: e = { S::kPrematureNullTerminator, S::kExpectedEndingDoubleQuotes }; break;
        case ref::fName: e = { S::kExpectedBeginingDoubleQuotes }; break;
        case ref::fNameAfterComma: e = { S::kExpectedBeginingDoubleQuotes, S::kExpectedJsonValue }; break;
        case ref::fColon: e = { S::kExpectedColon }; break;
        case ref::fArrayEnd: e = { S::kExpectedClosingSquareBracketsOrComma }; break;
        case ref::fObjectEnd: e = { S::kExpectedClosingCurlyBracesOrComma }; break;
        case ref::fTrailing: e = { S::kExpectedEndOfFile }; break;
        default: break;
    }
    if ( r.hi >= s.size() || s[ r.hi ] == 0 ) { e.insert( S::kPrematureNullTerminator ); if ( r.fault == ref::fStringEscape ) e.insert( S::kStringIllegalEscape ); }
    return e;
}

static std::string message( const ParseResult& p ) { String<256> m = ParseResultToString( p ); return std::string( static_cast<const char*>( m ) ); }
static std::string message( Status s ) { String<256> m = StatusToString( s ); return std::string( static_cast<const char*>( m ) ); }

// "" or what is wrong with the rendered message
static std::string messageFault( const ParseResult& p )
{
    std::string m = message( p ), own = message( p.status );
    if ( m.compare( 0, own.size(), own ) != 0 ) return "message '" + m + "' does not start with the status's own '" + own + "'";
    std::string rest = m.substr( own.size() );
    std::vector<std::string> numbers;
    for ( size_t i = 0; i < rest.size(); )
    {
        if ( isdigit( (unsigned char)rest[ i ] ) || rest[ i ] == '-' )
        {
            size_t b = i++;
            while ( i < rest.size() && isdigit( (unsigned char)rest[ i ] ) ) i++;
            numbers.push_back( rest.substr( b, i - b ) );
        }
        else i++;
    }
    if ( p.errorLine == 0 ) return numbers.empty() ? "" : "message '" + m + "' names a place where there is none";
    if ( numbers.size() != 2 || numbers[ 0 ] != std::to_string( p.errorLine ) || numbers[ 1 ] != std::to_string( p.errorColumn ) ) return "message '" + m + "' does not name line " + std::to_string( p.errorLine ) + " and column " + std::to_string( p.errorColumn );
    return "";
}

static void errors( const std::string& s, Rng& )
{
    counter++;
    ref::Result r = ref::read( s, false );
    bool file = every( uint64_t( fileEvery ) ) && s.size() <= 65534;
    ParseResult first;
    for ( int way = 0; way < ( file ? 2 : 1 ); way++ )
    {
        StructuredData d;
        ParseResult p;
        if ( way ) { viaFile( d, s, p ); vf::event( "through a file" ); }
        else first = p = parse( d, s );
        if ( way && ( p.status != first.status || p.errorLine != first.errorLine || p.errorColumn != first.errorColumn ) ) bad( "file gives " + show( p ) + ", buffer " + show( first ), s );
        std::string mf = messageFault( p );
        if ( !mf.empty() ) bad( mf, s );
        if ( p.status == Status::kOk )
        {
            if ( p.errorLine != 0 || p.errorColumn != 0 ) bad( "success with a place: " + show( p ), s );
            vf::event( "accepted" );
            continue;
        }
        if ( r.ok || undecided( s, r ) || s.empty() ) { vf::event( "outside the property" ); continue; }
        vf::st.evaluations++;
        bool placed = false;
        auto pl = place( s, r.lo );
        for ( size_t at = r.lo; at <= r.hi && !placed; at++ )
        {
            placed = pl.first == p.errorLine && pl.second == p.errorColumn;
            if ( at < s.size() && s[ at ] == '\n' ) { pl.first++; pl.second = 1; }
            else if ( at < s.size() ) pl.second++;
        }
        auto lo = place( s, r.lo ), hi = place( s, r.hi );
        if ( !placed )
            bad( "reported " + show( p ) + ", the fault lies between " + std::to_string( lo.first ) + ":" + std::to_string( lo.second ) + " and " + std::to_string( hi.first ) + ":" + std::to_string( hi.second ), s );
        if ( !expected( r, s ).count( p.status ) ) bad( std::string( "status " ) + statusName( p.status ) + " does not describe the fault (" + std::to_string( r.fault ) + " at byte " + std::to_string( r.hi ) + ")", s );
        vf::event( std::string( "status " ) + statusName( p.status ) );
        if ( p.errorLine > 1 ) vf::event( "errors beyond line 1" );
        vf::nontrivial( vf::hashStr( s ) );
        if ( p.errorLine > 1 ) vf::sample( s );
    }
}

static void c07()
{
    texts::Sizes z;
    z.tokens = 4;
    z.digits = 5;
    z.valid = 3000;
    z.mutants = 80000;
    z.garbage = 8000;
    texts::all( z, errors );
    // faults far down: many lines, long lines, several newline styles
    vf::stream( "places", vf::scaled( 6000 ), [ & ]( uint64_t i, Rng& r ) {
        static const std::vector<std::string> faults = { "+1", "01", "1.", "tru", "\"\\x\"", "\"\x01\"", "\"abc", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "[1 2]", "{1:2}", "}", ",", "{\"a\":1,}", "nul", "\"\xff\"", "{\"a\":}", "-", "[1,]", "@", "\"a\nb\"", "\n\n?", "[\n\n 1\n 2]" };
        std::string s = r.chance( 1, 2 ) ? "[" : "{\"q\":[";
        static const std::vector<std::string> nl = { "\n", "\r\n", " ", "\r", "\n\n", "\t", "" };
        int lines = i % 50 == 0 ? r.range( 1000, 12000 ) : r.range( 0, 60 );
        for ( int k = 0; k < lines; k++ )
        {
            s += r.pick( nl ) + ( r.chance( 1, 5 ) ? "\"te\\nxt\xc3\xa9\"" : std::to_string( r.below( 1000 ) ) ) + r.pick( nl ) + ",";
            if ( r.chance( 1, 50 ) ) s += std::string( size_t( r.range( 1, 400 ) ), ' ' );
        }
        s += r.pick( nl ) + r.pick( faults ) + r.pick( nl );
        if ( r.chance( 1, 2 ) ) s += "]\n}";
        errors( s, r );
    } );
    vf::stream( "huge", gen::kHuge * ( vf::st.scale > 2 ? 16 : 3 ), [ & ]( uint64_t i, Rng& r ) {
        std::string s = gen::huge( r, i );
        errors( s + "?", r );
        errors( s.substr( 0, s.size() - 1 ) + "?", r );
        errors( s.substr( 0, s.size() - 1 ), r );
        errors( "[" + s + ",tru]", r );
        errors( "{\"a\":" + s + "\n\"b\"}", r );
    } );
    // the message table
    vf::stream( "messages", 1, [ & ]( uint64_t, Rng& r ) {
        struct { Status s; std::vector<const char*> words; } table[] = {
            { Status::kOk, { "ok" } },
            { Status::KFileOpenError, { "open", "file" } },
            { Status::KFileReadError, { "read", "file" } },
            { Status::KFileTooLarge, { "large" } },
            { Status::kTextBufferContentsInvalid, { "invalid" } },
            { Status::kUnterminatedTextBuffer, { "terminated" } },
            { Status::kExpectedOpeningCurlyBraces, { "opening", "curly" } },
            { Status::kExpectedClosingCurlyBracesOrComma, { "closing", "curly", "comma" } },
            { Status::kExpectedOpeningSquareBrackets, { "opening", "square" } },
            { Status::kExpectedClosingSquareBracketsOrComma, { "closing", "square", "comma" } },
            { Status::kStringIllegalChar, { "illegal", "char" } },
            { Status::kStringIllegalEscape, { "illegal", "escape" } },
            { Status::kExpectedColon, { "colon" } },
            { Status::kExpectedBeginingDoubleQuotes, { "begin", "quotes" } },
            { Status::kExpectedEndingDoubleQuotes, { "ending", "quotes" } },
            { Status::kFloatInvalid, { "number" } },
            { Status::kExpectedTrueOrFalse, { "true", "false" } },
            { Status::kExpectedNull, { "null" } },
            { Status::kExpectedJsonValue, { "json value" } },
            { Status::kExpectedEndOfFile, { "end of file" } },
            { Status::kPrematureNullTerminator, { "premature" } },
            { Status::kNumbersCannotHaveLeadingZeros, { "leading zero" } },
            { Status::kInvalidStructuredData, { "invalid" } },
            { Status::kMissingObjectElement, { "not found" } },
            { Status::kException, { "exception" } },
            { Status::kInvalidValueType, { "type" } },
            { Status::kNameNotPresent, { "name" } },
            { Status::kNestingTooDeep, { "deep" } },
            { Status::KFileWriteError, { "write", "file" } },
        };
        std::map<std::string, Status> seen;
        for ( auto& t : table )
        {
            std::string m = message( t.s ), low = m;
            for ( char& c : low ) c = char( tolower( (unsigned char)c ) );
            for ( const char* w : t.words )
                if ( low.find( w ) == std::string::npos ) bad( std::string( "the message of " ) + statusName( t.s ) + " is '" + m + "'", w );
            if ( !seen.emplace( m, t.s ).second ) bad( std::string( "the message '" ) + m + "' belongs to " + statusName( t.s ) + " and to " + statusName( seen[ m ] ), m );
            vf::st.evaluations++;
            vf::event( "messages checked" );
            static const int edge[] = { 0, 1, 2, 9, 10, 99, 100, 999, 1000, 65535, 99999, 1000000, 16777216, 999999999, 1000000000, 2147483646, 2147483647 };
            for ( int l : edge )
                for ( int c : edge )
                {
                    if ( t.s == Status::kException || t.s == Status::kOk ) continue;
                    ParseResult p { t.s, l, c };
                    std::string f = messageFault( p );
                    if ( !f.empty() ) bad( f, statusName( t.s ) );
                    vf::st.evaluations++;
                }
            ParseResult none { t.s, 0, 0 };
            if ( message( none ) != m ) bad( "the message without a place is not the status's own: " + message( none ), m );
        }
        // errors without a place
        auto noPlace = [ & ]( const ParseResult& p, Status want, const char* what ) {
            vf::st.evaluations++;
            if ( p.status != want || p.errorLine != 0 || p.errorColumn != 0 ) bad( std::string( what ) + " gives " + show( p ), what );
        };
        StructuredData d;
        noPlace( d.Parse( ( scratch + "/no-such-file" ).c_str() ), Status::KFileOpenError, "a missing file" );
        vf::writeAll( fileName( "in" ), std::string( 65535, ' ' ) );
        noPlace( d.Parse( fileName( "in" ).c_str() ), Status::KFileTooLarge, "a file of 65535 bytes" );
        ParseResult directory = d.Parse( scratch.c_str() );
        noPlace( directory, directory.status == Status::KFileReadError ? Status::KFileReadError : Status::KFileOpenError, "a directory" );
        Array<char> b;
        b.AppendArrayElement( '1' );
        b.AppendArrayElement( '2' );
        noPlace( d.Parse( b ), Status::kUnterminatedTextBuffer, "an unterminated buffer" );
        Array<char> e;
        noPlace( d.Parse( e ), Status::kTextBufferContentsInvalid, "an empty buffer" );
        (void)r;
    } );
}

// ---- C19 -------------------------------------------------------------------

static void lookup( const ObjectValue* o, const ref::Node& n, const std::string& q, const std::string& s )
{
    if ( q.find( '\0' ) != std::string::npos ) return;
    const ref::Node* want = nullptr;
    for ( auto& m : n.members ) if ( m.first == q ) want = &m.second;
    // the queried name lies in its own heap block
    std::vector<char> heap( q.size() + 1 );
    memcpy( heap.data(), q.c_str(), q.size() + 1 );
    const char* c = heap.data();
    auto check = [ & ]( int kind, const void* got, const char* fn ) {
        bool should = want && want->kind == kind;
        if ( ( got != nullptr ) != should )
            bad( std::string( fn ) + "(\"" + vf::shown( q ) + "\") " + ( got ? "finds something" : "finds nothing" ) + ", the object has " + ( want ? kindName( want->kind ) : "no such name" ), s );
        if ( got ) vf::event( std::string( fn ) + " hit" );
        return got != nullptr;
    };
    vf::st.evaluations++;
    const String<>* fs = o->FindString( c );
    if ( check( ref::kString, fs, "FindString" ) && str( *fs ) != want->text ) bad( "FindString finds another value", s );
    const double* fd = o->FindNumber( c );
    if ( check( ref::kNumber, fd, "FindNumber" ) && !same( *fd, want->number ) ) bad( "FindNumber finds another value", s );
    const bool* fb = o->FindBool( c );
    if ( check( ref::kBool, fb, "FindBool" ) && *fb != want->flag ) bad( "FindBool finds another value", s );
    check( ref::kNull, o->FindJsonNull( c ), "FindJsonNull" );
    const Array<Value*>* fa = o->FindJsonValueArray( c );
    uint64_t v = 0;
    if ( check( ref::kArray, fa, "FindJsonValueArray" ) )
    {
        if ( size_t( fa->GetArrayElementCount() ) != want->items.size() ) bad( "FindJsonValueArray finds another value", s );
        for ( size_t i = 0; i < want->items.size(); i++ )
        {
            std::string e = compare( ( *fa )[ int32( i ) ], want->items[ i ], v );
            if ( !e.empty() ) bad( "FindJsonValueArray finds another value: " + e, s );
        }
    }
    const ObjectValue* fo = o->FindJsonObjectValue( c );
    if ( check( ref::kObject, fo, "FindJsonObjectValue" ) )
    {
        std::string e = compare( static_cast<const Value*>( fo ), *want, v );
        if ( !e.empty() ) bad( "FindJsonObjectValue finds another value: " + e, s );
    }
    const Value* fm = o->FindMapElement( c );
    if ( ( fm != nullptr ) != ( want != nullptr ) ) bad( "FindMapElement(\"" + vf::shown( q ) + "\") is wrong", s );
    if ( fm && str( fm->name ) != q ) bad( "FindMapElement finds another name", s );
    if ( !want ) vf::event( "absent names queried" );
}

static void lookups( const Value* v, const ref::Node& n, const std::string& s, Rng& r )
{
    if ( n.kind == ref::kArray )
    {
        const Array<Value*>& a = *v->GetDataAsPointerTo<Array<Value*>>();
        for ( size_t i = 0; i < n.items.size(); i++ ) lookups( a[ int32( i ) ], n.items[ i ], s, r );
        return;
    }
    if ( n.kind != ref::kObject ) return;
    const ObjectValue* o = v->AsJsonObjectValue();
    lookup( o, n, "", s );
    lookup( o, n, "no such name", s );
    size_t step = n.members.size() > 60 ? n.members.size() / 40 : 1;
    for ( size_t i = 0; i < n.members.size(); i += step )
    {
        const std::string& q = n.members[ i ].first;
        lookup( o, n, q, s );
        lookup( o, n, q + "a", s );
        lookup( o, n, q + "\x01", s );
        lookup( o, n, q + "\xff", s );
        lookup( o, n, "a" + q, s );
        if ( !q.empty() )
        {
            lookup( o, n, q.substr( 0, q.size() - 1 ), s );
            lookup( o, n, q.substr( 1 ), s );
            for ( int k = 0; k < 4; k++ )
            {
                std::string x = q;
                size_t at = k == 0 ? x.size() - 1 : k == 1 ? 0 : r.below( uint32_t( x.size() ) );
                x[ at ] = k == 3 ? char( x[ at ] ^ 0x20 ) : k == 2 ? char( x[ at ] ^ 0x80 ) : char( x[ at ] + ( r.chance( 1, 2 ) ? 1 : -1 ) );
                lookup( o, n, x, s );
            }
            std::string up = q;
            for ( char& c : up ) c = char( c ^ ( isalpha( (unsigned char)c ) ? 0x20 : 0 ) );
            lookup( o, n, up, s );
            lookup( o, n, q + q, s );
        }
        lookups( o->FindMapElement( q.c_str() ), n.members[ i ].second, s, r );
    }
}

static void naming( const std::string& s, Rng& rng )
{
    ref::Result r = ref::read( s );
    if ( !r.ok || undecided( s, r ) || r.loneSurrogate ) return;
    StructuredData d;
    if ( parse( d, s ).status != Status::kOk ) return;
    uint64_t v = 0;
    std::string e = compare( d.GetRootJsonValue(), r.root, v );
    if ( !e.empty() ) bad( "walking the document: " + e, s );
    lookups( d.GetRootJsonValue(), r.root, s, rng );
    if ( r.names ) { vf::nontrivial( vf::hashStr( s ) ); if ( r.names > 2 ) vf::sample( s ); }
}

static void c19()
{
    // one object per kind under the same name
    vf::stream( "kinds", 300, [ & ]( uint64_t i, Rng& r ) {
        static const std::vector<std::string> vals = { "\"x\"", "\"\"", "1.5", "0", "true", "false", "null", "[]", "[1]", "{}", "{\"k\":1}" };
        std::string name = i < 100 ? std::string( size_t( i ), 'k' ) : "k";
        std::string s = "{";
        int n = r.range( 1, 12 );
        for ( int k = 0; k < n; k++ ) s += ( k ? ",\"" : "\"" ) + name + ( k ? std::to_string( k ) : "" ) + "\":" + r.pick( vals );
        naming( s + "}", r );
    } );
    vf::stream( "names", vf::scaled( 12000 ), [ & ]( uint64_t i, Rng& r ) {
        std::string s = "{";
        int n = r.range( 1, i % 20 ? 24 : 200 );
        std::vector<std::string> used;
        gen::Opt o;
        o.budget = 3;
        o.maxDepth = 2;
        for ( int k = 0; k < n; k++ )
        {
            if ( k ) s += ",";
            gen::name( r, s, o, used );
            s += ":";
            int b = 3;
            gen::value( r, s, o, 1, b );
        }
        naming( s + "}", r );
    } );
    vf::stream( "documents", vf::scaled( 6000 ), [ & ]( uint64_t, Rng& r ) { naming( gen::document( r ), r ); } );
    // every pair of single bytes as two names
    vf::stream( "bytepairs", 126, [ & ]( uint64_t i, Rng& r ) {
        std::string s = "{";
        auto nm = []( uint32_t c ) { std::string n; if ( c == '"' || c == '\\' ) n += '\\'; ref::appendUtf8( n, c ); return n; };
        uint32_t base = uint32_t( i ) * 17 + 32;
        for ( uint32_t k = 0; k < 17; k++ ) s += ( k ? ",\"" : "\"" ) + nm( base + k ) + "\":" + std::to_string( k ) + ",\"" + nm( base + k ) + nm( base + 16 - k ) + "\":true";
        naming( s + "}", r );
    } );
    vf::stream( "huge", 4, [ & ]( uint64_t i, Rng& r ) { naming( gen::huge( r, 14 + i, i & 1 ? 66000 : 0 ), r ); } );
    vf::stream( "big", 40, [ & ]( uint64_t i, Rng& r ) { naming( gen::bigObject( r, 100 + int( i ) * 50, int( i ) ), r ); } );
}

// ---- C01 -------------------------------------------------------------------

static volatile uint64_t sinkHash;

static void touch( const Value* v, uint64_t& h )
{
    std::string err;
    int k = kindOf( v, err );
    h = h * 31 + uint64_t( k + 1 );
    switch ( k )
    {
        case ref::kString: { const String<>& s = *v->GetDataAsPointerTo<String<>>(); const char* p = s; for ( ; *p; p++ ) h = h * 31 + uint64_t( *p ); h += uint64_t( s.GetStringLength() ); break; }
        case ref::kNumber: h += bits( *v->GetDataAsPointerTo<double>() ); break;
        case ref::kBool: h += *v->GetDataAsPointerTo<bool>() ? 1 : 2; break;
        case ref::kArray: for ( const Value* e : *v->GetDataAsPointerTo<Array<Value*>>() ) touch( e, h ); break;
        case ref::kObject:
        {
            const ObjectValue* o = v->AsJsonObjectValue();
            for ( const Value* e : *o )
            {
                touch( e, h );
                const char* q = e->name;
                if ( !o->FindMapElement( q ) ) h++;
                h += o->FindString( q ) != nullptr;
                h += o->FindNumber( q ) != nullptr;
                h += o->FindBool( q ) != nullptr;
                h += o->FindJsonNull( q ) != nullptr;
                h += o->FindJsonValueArray( q ) != nullptr;
                h += o->FindJsonObjectValue( q ) != nullptr;
            }
            break;
        }
        default: break;
    }
}

void tryTypes( StructuredData& d, uint64_t pick, uint64_t& h ); // typed_ops.cpp

static void exercise( StructuredData& d, const ParseResult& p, bool write, uint64_t pick )
{
    uint64_t h = uint64_t( p.status );
    String<256> m = ParseResultToString( p );
    h += uint64_t( static_cast<const char*>( m )[ 0 ] );
    if ( d.GetRootJsonValue() ) { touch( d.GetRootJsonValue(), h ); vf::event( "documents walked" ); }
    tryTypes( d, pick, h );
    if ( write )
    {
        std::string f = fileName( "out" );
        h += uint64_t( d.Write( f.c_str(), uint32( pick % 5 ), pick % 2 ? ' ' : '\t' ) );
        StructuredData d2;
        ParseResult p2 = d2.Parse( f.c_str() );
        h += uint64_t( p2.status );
        vf::event( "documents written" );
    }
    sinkHash = sinkHash + h;
}

static FILE* pack = nullptr; // texts for the MemorySanitizer and Valgrind runs
static uint64_t packEvery = 1, packed = 0;

static void hostile( const std::string& s, Rng& r )
{
    counter++;
    vf::st.evaluations++;
    uint64_t pick = r.next();
    if ( pack && s.size() < 20000 && counter % packEvery == 0 )
    {
        uint32_t n = uint32_t( s.size() );
        fwrite( &n, 4, 1, pack );
        fwrite( s.data(), 1, s.size(), pack );
        packed++;
    }
    {
        StructuredData d;
        ParseResult p = parse( d, s );
        exercise( d, p, every( 16 ) && s.size() < 20000, pick );
        vf::event( std::string( "status " ) + statusName( p.status ) );
        if ( every( 32 ) )
        {
            // the same document reused
            ParseResult q = parse( d, gen::mutate( r, s ) );
            exercise( d, q, false, pick >> 8 );
        }
    }
    if ( every( 8 ) && s.size() <= 70000 )
    {
        StructuredData d;
        ParseResult p;
        viaFile( d, s, p );
        exercise( d, p, false, pick >> 16 );
        vf::event( "through a file" );
    }
    vf::nontrivial( vf::hashStr( s ) );
    if ( s.size() > 20 && s.size() < 100 ) vf::sample( s );
}

static void c01()
{
    if ( vf::st.replay.empty() )
    {
        pack = fopen( ( vf::st.dir + "/pack." + std::to_string( vf::st.shard ) ).c_str(), "wb" );
        packEvery = 5;
    }
    texts::Sizes z;
    z.tokens = 4;
    z.digits = 5;
    z.chars = 4;
    z.valid = 8000;
    z.mutants = 60000;
    z.garbage = 20000;
    texts::all( z, hostile );
    // nesting that would exhaust the stack
    vf::stream( "abyss", 48, [ & ]( uint64_t i, Rng& r ) {
        static const int depths[] = { 513, 600, 1000, 3000, 10000, 30000, 32700, 65000, 200000, 1000000, 3000000, 5000000 };
        int depth = depths[ i / 4 ];
        int style = int( i % 4 );
        if ( style == 1 || style == 2 ) depth = depth > 700000 ? 700000 : depth;
        std::string s = gen::nested( r, depth, style, true );
        hostile( s, r );
        hostile( gen::nested( r, depth, style, false ), r );
        // deep inside something
        hostile( "{\"x\":[1,2," + s + "],\"y\":3}", r );
        if ( s.size() < 70000 )
        {
            StructuredData d;
            ParseResult p;
            viaFile( d, s, p );
            exercise( d, p, false, 1 );
        }
    } );
    // long tokens, cut off at the end of the buffer
    vf::stream( "longtokens", 60, [ & ]( uint64_t i, Rng& r ) {
        static const std::vector<std::string> units = { "a", "\\n", "\\u0041", "\\ud83d\\ude00", "\xc3\xa9", "\xf0\x9f\x98\x80", "\\", "9", "0", "1.", " ", "\n", "[1],", "{}", "\"\",", "-", "e", "\\u", "\\ud83d", "\xff" };
        const std::string& u = units[ i % units.size() ];
        size_t n = i < 20 ? 5000 : i < 40 ? 65534 / u.size() : 1500000 / u.size();
        std::string s;
        s.reserve( n * u.size() );
        for ( size_t k = 0; k < n; k++ ) s += u;
        hostile( s, r );
        hostile( "\"" + s, r );
        hostile( "[\"" + s + "\"]", r );
        hostile( "[" + s, r );
        hostile( "[" + s + "1]", r );
        hostile( "{\"" + s + "\":1}", r );
        hostile( "-" + s, r );
        hostile( "1e" + s, r );
        hostile( "1." + s, r );
    } );
    vf::stream( "huge", gen::kHuge * ( vf::st.scale > 2 ? 8 : 2 ), [ & ]( uint64_t i, Rng& r ) {
        std::string s = gen::huge( r, i );
        hostile( s, r );
        hostile( s.substr( 0, s.size() - 1 ), r );
    } );
    // buffers of every small shape, including unterminated ones
    vf::stream( "buffers", 4096, [ & ]( uint64_t i, Rng& ) {
        Array<char> b;
        int n = int( i % 4 );
        for ( int k = 0; k < n; k++ ) b.AppendArrayElement( "\0[\"1"[ ( i >> ( 2 + 2 * k ) ) & 3 ] );
        StructuredData d;
        ParseResult p = d.Parse( b );
        exercise( d, p, false, i );
        vf::st.evaluations++;
    } );
    if ( pack ) fclose( pack );
    vf::event( "packed for MSan", packed );
}

static void all()
{
    scratch = vf::st.dir;
    if ( vf::st.prop == "C01" ) c01();
    else if ( vf::st.prop == "C03" ) c03();
    else if ( vf::st.prop == "C04" ) c04();
    else if ( vf::st.prop == "C06" ) c06();
    else if ( vf::st.prop == "C07" ) c07();
    else if ( vf::st.prop == "C19" ) c19();
    else vf::harnessError( "no such property here" );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
