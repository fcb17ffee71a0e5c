// C05: literals to doubles and doubles to literals, under several locales.
#include "lib.h"
#include "gen.h"

#include <charconv>
#include <cmath>
#include <clocale>
#include <limits>
#include <locale.h>

using namespace lib;
using vf::Rng;

// --- locale around the library's calls ----------------------------------------------------------------------------------

static std::string localeName = "C";
static locale_t    localeHandle = nullptr;

static std::string outPath;

// The locale may change between any two calls: every call runs in the locale or, sometimes, in that of C, and sometimes
// another call was made just before in the other one.
struct InLocale
{
    enum How { kC, kThread, kProcess } how = kC;
    locale_t old = nullptr;
    explicit InLocale( Rng& r )
    {
        if ( localeName == "C" ) return;
        how = r.chance( 1, 5 ) ? kC : r.chance( 1, 2 ) ? kThread : kProcess;
        if ( r.chance( 1, 3 ) )
        {
            How now = how;
            how = how == kC ? kThread : kC;
            enter();
            {
                StructuredData d;
                if ( parse( d, "[0.5,-12.75e1]" ).status != Status::kOk || d.Write( ( outPath + ".other" ).c_str(), 0 ) != Status::kOk ) vf::fail( "two plain numbers are refused (locale " + localeName + ")" );
            }
            leave();
            how = now;
            vf::event( "calls after one under another locale" );
        }
        enter();
        vf::event( how == kThread ? "calls under a thread's locale" : how == kProcess ? "calls under the process's locale" : "calls under the C locale" );
    }
    ~InLocale() { leave(); }
    void enter()
    {
        if ( how == kThread ) old = uselocale( localeHandle );
        if ( how == kProcess ) setlocale( LC_ALL, localeName.c_str() );
    }
    void leave()
    {
        if ( how == kThread ) uselocale( old );
        if ( how == kProcess ) setlocale( LC_ALL, "C" );
    }
};

// --- oracle --------------------------------------------------------------------------------------------------------------

// from_chars reports out of range for overflow and for underflow; the digits tell which. 
static bool isZeroLiteral( const std::string& s )
{
    for ( char c : s ) { if ( c == 'e' || c == 'E' ) break; if ( c >= '1' && c <= '9' ) return false; }
    return true;
}

static double expected( const std::string& s )
{
    bool neg = !s.empty() && s[ 0 ] == '-';
    if ( isZeroLiteral( s ) ) return neg ? -0.0 : 0.0;
    double v = 0;
    auto r = std::from_chars( s.data(), s.data() + s.size(), v );
    if ( r.ptr != s.data() + s.size() ) vf::harnessError( "from_chars leaves a rest of " + s.substr( 0, 100 ) );
    if ( r.ec == std::errc() ) return v;
    // magnitude: position of the first significant digit plus the exponent
    long long point = 0, lead = 0, exp = 0;
    bool seenPoint = false, seenDigit = false;
    size_t i = neg ? 1 : 0;
    for ( ; i < s.size() && s[ i ] != 'e' && s[ i ] != 'E'; i++ )
    {
        if ( s[ i ] == '.' ) { seenPoint = true; continue; }
        if ( s[ i ] != '0' ) seenDigit = true;
        if ( !seenPoint && seenDigit ) lead++;
        if ( seenPoint && !seenDigit ) point++;
    }
    if ( i < s.size() )
    {
        i++;
        bool en = s[ i ] == '-';
        if ( s[ i ] == '-' || s[ i ] == '+' ) i++;
        for ( ; i < s.size(); i++ ) if ( exp < 1000000000000ll ) exp = exp * 10 + ( s[ i ] - '0' );
        if ( en ) exp = -exp;
    }
    double m = lead - point + exp > 0 ? std::numeric_limits<double>::infinity() : 0.0;
    return neg ? -m : m;
}

// --- recorded for the checker that works with exact fractions -------------------------------------------------------------

static FILE*    logFile = nullptr;
static uint64_t logged = 0;

static void record( const char* kind, const std::string& literal, double got )
{
    if ( !logFile || literal.size() > 3000 || logged > 6000 ) return;
    fprintf( logFile, "%s %016llx %s\n", kind, (unsigned long long)bits( got ), literal.c_str() );
    logged++;
}

// --- literals -------------------------------------------------------------------------------------------------------------

static std::vector<std::string> batch;
static size_t batchBytes = 0;

static void judge( const std::string& lit, double got, const char* context )
{
    vf::st.evaluations++;
    double want = expected( lit );
    if ( !same( got, want ) ) vf::fail( "the literal " + vf::shown( lit, 400 ) + " " + context + " yields " + dbl( got ) + ", the nearest double is " + dbl( want ) + " (locale " + localeName + ")" );
    if ( std::isinf( want ) ) vf::event( "literals that overflow" );
    else if ( want == 0 ) vf::event( isZeroLiteral( lit ) ? "literals of zero" : "literals that underflow" );
    else if ( std::fabs( want ) < 2.2250738585072014e-308 ) vf::event( "literals of subnormal numbers" );
    else vf::event( "literals of normal numbers" );
}

static void single( const std::string& lit, Rng& r )
{
    // one literal in one surrounding
    static const char* const around[][ 2 ] = { { "", "" }, { " ", "\n" }, { "[", "]" }, { "[0,", ",0]" }, { "[9.5e1 , ", " , 1.25]" }, { "{\"n\":", "}" }, { "{\"n\":\t", "\r\n,\"m\":1e5}" }, { "[\"1.5\",", ",\"2e\"]" }, { "[[-0.5],{\"n\":", "},.]" } };
    int k = int( r.below( 8 ) );
    std::string t = around[ k ][ 0 ] + lit + around[ k ][ 1 ];
    StructuredData d;
    Status s;
    {
        InLocale l( r );
        s = parse( d, t ).status;
    }
    if ( s != Status::kOk ) vf::fail( "the literal " + vf::shown( lit, 400 ) + " is refused with " + statusName( s ) + " in the text " + vf::shown( t, 200 ) );
    const Value* v = d.GetRootJsonValue();
    if ( v && k >= 2 )
    {
        if ( k == 5 || k == 6 ) v = v->AsJsonObjectValue()->FindMapElement( "n" );
        else
        {
            const Array<Value*>& a = *v->GetDataAsPointerTo<Array<Value*>>();
            v = a.GetArrayElementCount() == ( k == 2 ? 1 : 3 ) ? a[ k == 2 ? 0 : 1 ] : nullptr;
        }
    }
    if ( !v || !v->GetDataAsPointerTo<double>() ) vf::fail( "no number where " + vf::shown( t, 200 ) + " has one" );
    judge( lit, *v->GetDataAsPointerTo<double>(), "alone" );
    record( "L", lit, *v->GetDataAsPointerTo<double>() );
    vf::nontrivial( vf::hashStr( lit ) );
}

static void flush( Rng& r )
{
    if ( batch.empty() ) return;
    bool obj = r.chance( 1, 4 );
    std::string t = obj ? "{" : "[";
    for ( size_t i = 0; i < batch.size(); i++ )
    {
        if ( i ) t += r.chance( 1, 4 ) ? " , " : ",";
        if ( obj ) t += "\"" + std::to_string( i ) + "\":";
        t += batch[ i ];
    }
    t += obj ? "}" : "]";
    StructuredData d;
    Status s;
    {
        InLocale l( r );
        s = parse( d, t ).status;
    }
    if ( s != Status::kOk ) vf::fail( std::string( "a text of numbers is refused with " ) + statusName( s ) + ": " + vf::shown( t, 2000 ) );
    for ( size_t i = 0; i < batch.size(); i++ )
    {
        const Value* v = obj ? d.GetRootJsonValue()->AsJsonObjectValue()->FindMapElement( std::to_string( i ).c_str() ) : ( *d.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>() )[ int32( i ) ];
        if ( !v || !v->GetDataAsPointerTo<double>() ) vf::fail( "number " + std::to_string( i ) + " is missing in " + vf::shown( t, 2000 ) );
        judge( batch[ i ], *v->GetDataAsPointerTo<double>(), "among others" );
        if ( r.chance( 1, 64 ) ) record( "L", batch[ i ], *v->GetDataAsPointerTo<double>() );
        vf::nontrivial( vf::hashStr( batch[ i ] ) );
    }
    batch.clear();
    batchBytes = 0;
}

static void add( const std::string& lit, Rng& r )
{
    batch.push_back( lit );
    batchBytes += lit.size();
    if ( batch.size() >= 256 || batchBytes > 50000 ) flush( r );
}

static std::string exponent( Rng& r, int e )
{
    std::string s( 1, "eE"[ r.below( 2 ) ] );
    if ( e < 0 ) s += '-';
    else if ( r.chance( 1, 2 ) ) s += '+';
    if ( r.chance( 1, 8 ) ) s += std::string( size_t( r.range( 1, 4 ) ), '0' );
    return s + std::to_string( e < 0 ? -e : e );
}

// All numbers of up to three digits at every exponent.
static void shortLiterals( uint64_t i, Rng& r )
{
    int e = int( i ) - 345;
    for ( int m = 0; m < 1000; m++ )
    {
        std::string s = std::to_string( m );
        if ( r.chance( 1, 3 ) ) s = "-" + s;
        if ( m % 3 == 1 ) { size_t k = s.size() - ( s.size() > 1 && isdigit( (unsigned char)s[ s.size() - 2 ] ) ? 1 : 0 ); if ( k < s.size() ) s.insert( k, "." ); }
        else if ( m % 3 == 2 && r.chance( 1, 2 ) ) s += ".0";
        if ( e != 0 || r.chance( 1, 2 ) ) s += exponent( r, e );
        add( s, r );
    }
    flush( r );
}

// Exact decimal text of a long double (any double, or the middle of two).
static std::string exact( long double v )
{
    static std::vector<char> b( 8000 );
    auto p = std::to_chars( b.data(), b.data() + b.size(), v, std::chars_format::fixed, 1130 );
    std::string s( b.data(), p.ptr );
    // the decimal separator is '.' whatever the locale, here the C locale is in force
    while ( s.back() == '0' ) s.pop_back();
    if ( s.back() == '.' ) s.pop_back();
    return s;
}

static double randomDouble( Rng& r )
{
    switch ( r.below( 9 ) )
    {
        case 0: { uint64_t u = r.next(); double d; memcpy( &d, &u, 8 ); if ( std::isfinite( d ) ) return d; return 1.5; }
        case 1: { uint64_t u = r.next() & 0x800FFFFFFFFFFFFFull; double d; memcpy( &d, &u, 8 ); return d; } // subnormal
        case 2: return double( int64_t( r.next() ) >> r.below( 63 ) );
        case 3: return double( r.range( -100000, 100000 ) ) / double( r.range( 1, 1000 ) );
        case 4: { double d = std::ldexp( 1.0, r.range( -1074, 1023 ) ); for ( int k = r.range( -2, 2 ); k != 0; k += k < 0 ? 1 : -1 ) d = std::nextafter( d, k < 0 ? 0.0 : HUGE_VAL ); return std::isfinite( d ) ? d : 1.0; }
        case 5: { std::string s = "1e" + std::to_string( r.range( -323, 308 ) ); double d = expected( s ); for ( int k = r.range( -2, 2 ); k != 0; k += k < 0 ? 1 : -1 ) d = std::nextafter( d, k < 0 ? 0.0 : HUGE_VAL ); return d; }
        case 6: { double d = 9007199254740992.0; return ( d + r.range( -4, 4 ) * 1.0 ) * ( r.chance( 1, 2 ) ? 1 : -1 ); }
        case 7: { uint64_t u = uint64_t( r.below( 2047 ) ) << 52; static const uint64_t m[] = { 0, 1, 2, 0xFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFEull, 0x8000000000000ull, 0x7FFFFFFFFFFFFull }; u |= m[ r.below( 7 ) ]; double d; memcpy( &d, &u, 8 ); return r.chance( 1, 2 ) ? d : -d; }
        default: return double( r.range( -1000, 1000 ) ) / 8.0;
    }
}

// A literal exactly at, just below or just above the middle of two neighbouring doubles.
static std::string scaledForm( Rng& r, const std::string& fixed )
{
    // the same value with the point moved and an exponent
    std::string digits;
    long long point = -1;
    size_t i = fixed[ 0 ] == '-' ? 1 : 0;
    for ( ; i < fixed.size(); i++ ) { if ( fixed[ i ] == '.' ) point = (long long)digits.size(); else digits += fixed[ i ]; }
    if ( point < 0 ) point = (long long)digits.size();
    size_t z = 0;
    while ( z + 1 < digits.size() && digits[ z ] == '0' ) z++;
    digits.erase( 0, z );
    point -= (long long)z;
    std::string s;
    long long at = r.chance( 1, 2 ) ? 1 : r.range( 1, int( digits.size() ) );
    s = digits.substr( 0, size_t( at ) );
    if ( size_t( at ) < digits.size() ) s += "." + digits.substr( size_t( at ) );
    else if ( r.chance( 1, 3 ) ) s += ".0";
    return ( fixed[ 0 ] == '-' ? "-" : "" ) + s + exponent( r, int( point - at ) );
}

static void halfway( uint64_t, Rng& r )
{
    for ( int n = 0; n < 8; n++ )
    {
        double d = std::fabs( randomDouble( r ) );
        double e = std::nextafter( d, HUGE_VAL );
        long double mid = std::isinf( e ) ? 0x1.fffffffffffff8p1023L : ( (long double)d + (long double)e ) / 2;
        std::string s = exact( mid );
        std::string sign = r.chance( 1, 3 ) ? "-" : "";
        auto put = [ & ]( std::string t ) {
            t = sign + t;
            if ( t.find( 'e' ) == std::string::npos && r.chance( 1, 2 ) ) t = scaledForm( r, t );
            if ( r.chance( 1, 16 ) ) single( t, r );
            else add( t, r );
        };
        put( s );
        std::string up = s;
        if ( up.find( '.' ) == std::string::npos ) up += ".";
        put( up + std::string( r.below( r.chance( 1, 4 ) ? 900 : 6 ), '0' ) + "1" );
        // just below: the last digit is 5 (a middle ends in 5), 4 followed by nines is less
        std::string down = s;
        size_t k = down.find_last_not_of( "0." );
        if ( k != std::string::npos )
        {
            down[ k ]--;
            for ( size_t j = k + 1; j < down.size(); j++ ) if ( down[ j ] == '0' ) down[ j ] = '9';
            if ( down.find( '.' ) == std::string::npos ) down += ".";
            if ( down.size() > 1 && down[ 0 ] == '0' && down[ 1 ] != '.' ) down.erase( 0, 1 );
            down += std::string( 1 + r.below( r.chance( 1, 4 ) ? 900 : 6 ), '9' );
            put( down );
        }
        vf::event( "middles of neighbouring doubles", 1 );
        // the double itself, exactly and cut to few digits
        s = exact( (long double)d );
        put( s );
        char b[ 64 ];
        auto p = std::to_chars( b, b + 64, d, std::chars_format::scientific, r.range( 0, 20 ) );
        put( std::string( b, p.ptr ) );
    }
    flush( r );
}

static void longLiterals( uint64_t i, Rng& r )
{
    auto digits = [ & ]( size_t n ) { std::string s; for ( size_t k = 0; k < n; k++ ) s += char( '0' + r.below( 10 ) ); return s; };
    size_t n = r.chance( 1, 30 ) ? size_t( vf::hugeSize( r ) ) : r.chance( 1, 8 ) ? r.below( 60000 ) : r.below( 1200 );
    std::string s;
    switch ( i % 10 )
    {
        case 0: s = "1" + digits( n ); break;
        case 1: s = "0." + digits( n + 1 ); break;
        case 2: s = "0." + std::string( n, '0' ) + "1" + digits( 30 ); break;
        case 3: s = "0." + std::string( n, '0' ) + "1" + digits( 30 ) + exponent( r, int( n ) + r.range( -330, 315 ) ); break; // value of ordinary size
        case 4: s = "1" + digits( 20 ) + std::string( n, '0' ) + exponent( r, -int( n ) + r.range( -345, 300 ) ); break;
        case 5: s = "1" + digits( n ) + "." + digits( r.below( 800 ) + 1 ) + exponent( r, -int( n ) + r.range( -340, 308 ) ); break;
        case 6: s = digits( 1 ) + "." + digits( 5 ) + "e" + ( r.chance( 1, 2 ) ? "-" : "+" ) + "1" + digits( r.below( 40 ) ); break; // exponents beyond any integer
        case 7: s = "0" + ( r.chance( 1, 2 ) ? "." + std::string( n + 1, '0' ) : std::string() ) + "e" + ( r.chance( 1, 2 ) ? "-" : "" ) + digits( 1 + r.below( 30 ) ); break; // zero at any exponent
        case 8: s = "1" + digits( 16 ) + "." + std::string( n + 1, '0' ) + digits( 1 ); break;
        default: s = digits( 1 ) + "." + std::string( r.below( 700 ), '9' ) + digits( 3 ) + exponent( r, r.range( -330, 310 ) ); break;
    }
    if ( r.chance( 1, 3 ) ) s = "-" + s;
    single( s, r );
    vf::event( "long literals" );
}

static void edges( uint64_t i, Rng& r )
{
    static const char* const e[] = { "0", "-0", "0.0", "-0.0", "0e0", "-0e5", "0E-400", "1", "-1", "4.9e-324", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.4703282292062327208e-324", "2.4703282292062328e-324", "2.2250738585072011e-308", "2.2250738585072012e-308", "2.2250738585072014e-308",
                                     "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.797693134862315807e308", "1.797693134862315808e308", "1.8e308", "1e308", "1e309", "-1e309", "1e400", "1e-400", "-1e-400", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740994", "9007199254740995",
                                     "18446744073709551615", "18446744073709551616", "18446744073709551617", "9223372036854775807", "9223372036854775808", "4294967295", "4294967296", "0.1", "0.2", "0.3", "1.1", "3.141592653589793", "2.718281828459045", "5e-1", "123456789012345678901234567890", "8.5", "0.5e+1", "1E5", "1e05", "1e+05", "1e-05",
                                     "6929495644600919.5", "3.7455744005952583e15", "2.2250738585072011360574097967091319759348195463516456480234261097248222220210769455165295239081350879141491589130396211068700864386945946455275272074078206217433799881410632673292535522868813721490129811224514518898490572223072852551331557550159143974763979834118019993239628482610e-308",
                                     "0.000000000000000000000000000000000000000000000000000000000000000000000000000000000000001e+87", "1e00000000000000000000000000000000001", "1e-00000000000000000000000000000000001", "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203124", "1.00000000000000011102230246251565404236316680908203126" };
    for ( int k = 0; k < 8; k++ ) single( e[ i % ( sizeof e / sizeof *e ) ], r );
}

// --- doubles --------------------------------------------------------------------------------------------------------------

static void roundTrip( uint64_t i, Rng& r )
{
    std::vector<double> v;
    if ( i < 2048 )
    {
        // every exponent with edge mantissas
        static const uint64_t m[] = { 0, 1, 2, 3, 0xFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFEull, 0x8000000000000ull, 0x7FFFFFFFFFFFFull, 0x8000000000001ull, 0x5555555555555ull, 0xAAAAAAAAAAAAAull };
        for ( uint64_t x : m )
            for ( int s = 0; s < 2; s++ )
            {
                uint64_t u = ( ( i & 2047 ) << 52 ) | x | ( uint64_t( s ) << 63 );
                double d;
                memcpy( &d, &u, 8 );
                if ( std::isfinite( d ) ) v.push_back( d );
            }
    }
    for ( int k = 0; k < 40; k++ ) v.push_back( randomDouble( r ) );
    Array<double> a;
    for ( double d : v ) a.AppendArrayElement( d );
    StructuredData d, e;
    Status s, w;
    uint32 indent = r.below( 3 );
    {
        InLocale l( r );
        s = d.SerializeFrom( a );
        w = d.Write( outPath.c_str(), indent );
    }
    if ( s != Status::kOk || w != Status::kOk ) vf::fail( std::string( "finite numbers are not written: " ) + statusName( s ) + ", " + statusName( w ) );
    std::string t = vf::readAll( outPath );
    ref::Result x = ref::read( t );
    if ( !x.ok || x.root.kind != ref::kArray || x.root.items.size() != v.size() ) vf::fail( "the written numbers are not a JSON text of " + std::to_string( v.size() ) + " numbers: " + vf::shown( t, 2000 ) + " (locale " + localeName + ")" );
    {
        InLocale l( r );
        s = e.Parse( outPath.c_str() ).status;
    }
    if ( s != Status::kOk ) vf::fail( std::string( "the written numbers are refused: " ) + statusName( s ) + ", " + vf::shown( t, 2000 ) );
    const Array<Value*>& b = *e.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
    Array<double> c;
    {
        InLocale l( r );
        s = e.DeserializeTo( c );
    }
    if ( s != Status::kOk || size_t( c.GetArrayElementCount() ) != v.size() || size_t( b.GetArrayElementCount() ) != v.size() ) vf::fail( "numbers do not come back" );
    for ( size_t k = 0; k < v.size(); k++ )
    {
        vf::st.evaluations++;
        double lit = expected( x.root.items[ k ].text ), got = *b[ int32( k ) ]->GetDataAsPointerTo<double>();
        if ( bits( lit ) != bits( v[ k ] ) ) vf::fail( "the double " + dbl( v[ k ] ) + " is written as " + x.root.items[ k ].text + ", which denotes " + dbl( lit ) + " (locale " + localeName + ")" );
        if ( bits( got ) != bits( v[ k ] ) || bits( c[ int32( k ) ] ) != bits( v[ k ] ) ) vf::fail( "the double " + dbl( v[ k ] ) + ", written as " + x.root.items[ k ].text + ", comes back as " + dbl( got ) + " (locale " + localeName + ")" );
        if ( r.chance( 1, 64 ) ) record( "W", x.root.items[ k ].text, v[ k ] );
        vf::nontrivial( bits( v[ k ] ) * 31 + 5 );
    }
    vf::event( "doubles written and read back", v.size() );
}

// A double alone, in an object, nested; also over an earlier, longer file.
static void alone( uint64_t, Rng& r )
{
    double v = randomDouble( r );
    StructuredData d, e;
    Status s, w;
    if ( r.chance( 1, 2 ) ) vf::writeAll( outPath, std::string( 60, '7' ) );
    {
        InLocale l( r );
        s = d.SerializeFrom( v );
        w = d.Write( outPath.c_str() );
    }
    if ( s != Status::kOk || w != Status::kOk ) vf::fail( "a finite number is not written" );
    std::string t = vf::readAll( outPath );
    ref::Result x = ref::read( t );
    if ( !x.ok || x.root.kind != ref::kNumber || bits( expected( x.root.text ) ) != bits( v ) ) vf::fail( "the double " + dbl( v ) + " is written as " + vf::shown( t ) + " (locale " + localeName + ")" );
    double back = 7;
    {
        InLocale l( r );
        s = e.Parse( outPath.c_str() ).status;
        w = e.DeserializeTo( back );
    }
    if ( s != Status::kOk || w != Status::kOk || bits( back ) != bits( v ) ) vf::fail( "the double " + dbl( v ) + ", written as " + vf::shown( t ) + ", comes back as " + dbl( back ) + " (locale " + localeName + ")" );
    vf::st.evaluations++;
    vf::event( "doubles written and read back" );
    vf::nontrivial( bits( v ) * 31 + 6 );
}

static void all()
{
    if ( !vf::st.mode.empty() && vf::st.mode != "C" )
    {
        localeName = vf::st.mode;
        localeHandle = newlocale( LC_ALL_MASK, localeName.c_str(), nullptr );
        if ( !localeHandle || !setlocale( LC_ALL, localeName.c_str() ) ) vf::harnessError( "locale " + localeName + " cannot be used" );
        if ( std::string( localeconv()->decimal_point ) == "." ) vf::harnessError( "locale " + localeName + " has an ordinary decimal point" );
        vf::event( "locale " + localeName );
        setlocale( LC_ALL, "C" );
    }
    outPath = vf::st.dir + "/out." + std::to_string( vf::st.shard );
    std::string lp = vf::st.dir + "/log." + std::to_string( vf::st.shard );
    if ( vf::st.replay.empty() ) logFile = fopen( lp.c_str(), "w" );
    bool full = localeName == "C";
    vf::stream( "edges", 72 * 8, edges );
    vf::stream( "short", full ? 345 + 313 : 0, shortLiterals );
    vf::stream( "halfway", vf::scaled( full ? 3000 : 600 ), halfway );
    vf::stream( "long", vf::scaled( full ? 3000 : 800 ), longLiterals );
    vf::stream( "doubles", full ? uint64_t( vf::scaled( 6000 ) ) : uint64_t( vf::scaled( 2100 ) ), roundTrip );
    vf::stream( "alone", vf::scaled( full ? 8000 : 3000 ), alone );
    if ( logFile ) fclose( logFile );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
