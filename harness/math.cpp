// C21: scalar math and integer helpers against their definitions.
#include "common.h"
#include "TSBasic.h"
#include "TSMath.h"

#include <cmath>
#include <limits>

namespace T = Terathon;
using vf::Rng;

static float flt( uint32_t b ) { float f; memcpy( &f, &b, 4 ); return f; }
static uint32_t bitsOf( float f ) { uint32_t b; memcpy( &b, &f, 4 ); return b; }

static std::string show( double x ) { char b[ 64 ]; snprintf( b, sizeof b, "%.9g", x ); return b; }
static std::string show( float x ) { char b[ 64 ]; snprintf( b, sizeof b, "%.9g [%08x]", double( x ), bitsOf( x ) ); return b; }
static std::string show( long long x ) { return std::to_string( x ); }
static std::string show( int x ) { return std::to_string( x ); }
static std::string show( unsigned x ) { return std::to_string( x ); }

[[noreturn]] static void bad( const char* fn, const std::string& arg, const std::string& got, const std::string& want ) { vf::fail( std::string( fn ) + "(" + arg + ") gives " + got + ", not " + want ); }

// exact, zeros of both signs being the same
static void same( const char* fn, float x, float got, float want )
{
    if ( !( got == want ) ) bad( fn, show( x ), show( got ), show( want ) );
}

struct Worst { double error = 0; float at = 0, got = 0; };
static std::map<std::string, Worst> worst;
static bool measure;

static void near( const char* fn, float x, float got, double want, double limit )
{
    double e = std::fabs( double( got ) - want );
    if ( measure )
    {
        Worst& w = worst[ fn ];
        if ( !( e / limit <= w.error ) ) { w.error = e / limit; w.at = x; w.got = got; }
        return;
    }
    if ( !( e <= limit ) ) bad( fn, show( x ), show( got ), show( want ) );
}

#ifdef TERATHON_NO_SIMD
static const double kRoot = 8e-6; // two steps from a guess by bits
#else
static const double kRoot = 1e-6;
#endif
static const float kTwo23 = 8388608.0F;
static const float kMin = std::numeric_limits<float>::min();
static const float kMax = std::numeric_limits<float>::max();
static const double kPi = 3.14159265358979323846;

// x is any finite float
static void unary( float x )
{
    const double d = x;
    same( "Fabs", x, T::Fabs( x ), std::fabs( x ) );
    same( "Fnabs", x, T::Fnabs( x ), -std::fabs( x ) );
    same( "Fsgn", x, T::Fsgn( x ), x < 0 ? -1.0F : x > 0 ? 1.0F : 0.0F );
    same( "Fnsgn", x, T::Fnsgn( x ), x < 0 ? 1.0F : x > 0 ? -1.0F : 0.0F );
    if ( x != 0 || !std::signbit( x ) )
    {
        same( "NonzeroFsgn", x, T::NonzeroFsgn( x ), x < 0 ? -1.0F : 1.0F );
        same( "NonzeroFnsgn", x, T::NonzeroFnsgn( x ), x < 0 ? 1.0F : -1.0F );
    }
    same( "FminZero", x, T::FminZero( x ), x < 0 ? x : 0.0F );
    same( "FmaxZero", x, T::FmaxZero( x ), x > 0 ? x : 0.0F );
    same( "Saturate", x, T::Saturate( x ), x < 0 ? 0.0F : x > 1 ? 1.0F : x );
    const float fl = std::floor( x ), ce = std::ceil( x );
    same( "Floor", x, T::Floor( x ), fl );
    same( "Ceil", x, T::Ceil( x ), ce );
    same( "Frac", x, T::Frac( x ), x - fl );
    float f = -7, c = -7;
    T::FloorCeil( x, &f, &c );
    same( "FloorCeil, floor", x, f, fl );
    same( "FloorCeil, ceil", x, c, ce );
    if ( x >= 0 && x <= kTwo23 )
    {
        same( "PositiveFloor", x, T::PositiveFloor( x ), fl );
        same( "PositiveCeil", x, T::PositiveCeil( x ), ce );
        same( "PositiveFrac", x, T::PositiveFrac( x ), x - fl );
        f = c = -7;
        T::PositiveFloorCeil( x, &f, &c );
        same( "PositiveFloorCeil, floor", x, f, fl );
        same( "PositiveFloorCeil, ceil", x, c, ce );
    }
    if ( x <= 0 && x >= -kTwo23 )
    {
        same( "NegativeFloor", x, T::NegativeFloor( x ), fl );
        same( "NegativeCeil", x, T::NegativeCeil( x ), ce );
        same( "NegativeFrac", x, T::NegativeFrac( x ), x - fl );
        f = c = -7;
        T::NegativeFloorCeil( x, &f, &c );
        same( "NegativeFloorCeil, floor", x, f, fl );
        same( "NegativeFloorCeil, ceil", x, c, ce );
    }
    if ( T::asuint( x ) != bitsOf( x ) || T::asint( x ) != int( bitsOf( x ) ) ) bad( "asuint", show( x ), show( T::asuint( x ) ), show( bitsOf( x ) ) );

    if ( x >= kMin )
    {
        double s = std::sqrt( d );
        near( "Sqrt", x, T::Sqrt( x ), s, s * kRoot );
        near( "InverseSqrt", x, T::InverseSqrt( x ), 1 / s, kRoot / s );
        double l = std::log( d );
        near( "Log", x, T::Log( x ), l, 2e-7 + 2e-7 * std::fabs( l ) );
    }
    else if ( x >= 0 ) near( "Sqrt (subnormal)", x, T::Sqrt( x ), 0, 2e-19 );

    const float a = std::fabs( x );
    if ( a <= 10000 )
    {
        // the error of the reduced angle grows with the angle
        double sn = std::sin( d ), cs = std::cos( d ), delta = 5e-7 + 3e-7 * a;
        float s = T::Sin( x ), k = T::Cos( x );
        near( "Sin", x, s, sn, delta );
        near( "Cos", x, k, cs, delta );
        f = c = -7;
        T::CosSin( x, &c, &f );
        near( "CosSin, sine", x, f, sn, delta );
        near( "CosSin, cosine", x, c, cs, delta );
        // away from the poles
        if ( std::fabs( cs ) > 2 * delta + 1e-3 )
        {
            double t = sn / cs;
            near( "Tan", x, T::Tan( x ), t, 1.5 * delta * ( 1 + t * t ) );
        }
    }
    if ( a <= 1 )
    {
        // 1 - x*x is known to 1.2e-7
        double room = 5e-7 + ( kRoot > 1e-6 ? 3e-6 : 0 ) + 4e-7 / std::sqrt( 1 - d * d + 1.2e-7 );
        near( "Arcsin", x, T::Arcsin( x ), std::asin( d ), room );
        near( "Arccos", x, T::Arccos( x ), std::acos( d ), room );
    }
    near( "Arctan", x, T::Arctan( x ), std::atan( d ), 5e-7 );
    float e = T::Exp( x );
    if ( x > 88.73F )
    {
        if ( e != std::numeric_limits<float>::infinity() ) bad( "Exp", show( x ), show( e ), "infinity" );
    }
    else if ( x < -87 ) near( "Exp (small)", x, e, 0, 1.7e-38 );
    else if ( x <= 88.72F )
    {
        double w = std::exp( d );
        near( "Exp", x, e, w, w * 2e-6 );
    }
}

static const std::vector<uint32_t>& edges()
{
    static std::vector<uint32_t> v;
    if ( !v.empty() ) return v;
    auto add = [ & ]( float f ) {
        for ( int k = -2; k <= 2; k++ )
        {
            uint32_t b = bitsOf( f ) + uint32_t( k );
            if ( ( b & 0x7f800000u ) != 0x7f800000u ) { v.push_back( b ); v.push_back( b ^ 0x80000000u ); }
        }
    };
    for ( float f : { 0.0F, 1e-45F, kMin, kMax, 0.5F, 1.0F, 1.5F, 2.0F, 2.5F, 3.0F, 64.0F, 87.0F, 88.0F, 89.0F, 90.0F, 91.0F, 92.0F, 127.0F, 128.0F, 255.0F, 256.0F, 4194304.0F, 4194303.5F, 8388607.5F, kTwo23, 16777216.0F, 2147483648.0F, 4294967296.0F, 1e10F, 1e20F, 1e30F, float( kPi ), float( kPi / 2 ), float( kPi / 4 ), float( 2 * kPi ) } ) add( f );
    for ( int e = -126; e < 128; e++ ) add( std::ldexp( 1.0F, e ) );
    for ( int n = 0; n <= 256; n++ ) { add( float( n ) / 64 ); add( float( n ) + 0.5F ); add( float( n * ( 2 * kPi / 256 ) ) ); add( float( std::sin( n * kPi / 512 ) ) ); }
    return v;
}

static void binary( float x, float y, float z, float w )
{
    auto same2 = [ & ]( const char* fn, float got, float want ) { if ( !( got == want ) ) bad( fn, show( x ) + ", " + show( y ) + ", " + show( z ) + ", " + show( w ), show( got ), show( want ) ); };
    auto lo = []( float p, float q ) { return q < p ? q : p; };
    auto hi = []( float p, float q ) { return q > p ? q : p; };
    same2( "Fmin/2", T::Fmin( x, y ), lo( x, y ) );
    same2( "Fmin/3", T::Fmin( x, y, z ), lo( lo( x, y ), z ) );
    same2( "Fmin/4", T::Fmin( x, y, z, w ), lo( lo( x, y ), lo( z, w ) ) );
    same2( "Fmax/2", T::Fmax( x, y ), hi( x, y ) );
    same2( "Fmax/3", T::Fmax( x, y, z ), hi( hi( x, y ), z ) );
    same2( "Fmax/4", T::Fmax( x, y, z, w ), hi( hi( x, y ), hi( z, w ) ) );
    float b = lo( y, z ), t = hi( y, z );
    same2( "Clamp", T::Clamp( x, b, t ), x < b ? b : x > t ? t : x );
    // Arctan of two arguments, where both are zero or above the subnormal range
    auto fine = []( float p ) { return p == 0 || std::fabs( p ) > kMin; };
    if ( fine( x ) && fine( y ) )
    {
        float got = T::Arctan( y, x );
        double want = y == 0 ? ( x < 0 ? kPi : 0 ) : std::atan2( double( y ), double( x ) );
        double e = std::fabs( got - want );
        if ( y == 0 && std::signbit( y ) && x < 0 ) e = std::fabs( std::fabs( got ) - kPi );
        if ( measure ) { Worst& k = worst[ "Arctan/2" ]; if ( !( e / 6e-7 <= k.error ) ) { k.error = e / 6e-7; k.at = y; k.got = got; } }
        else if ( !( e <= 6e-7 ) ) bad( "Arctan", show( y ) + ", " + show( x ), show( got ), show( want ) );
    }
    float base = std::fabs( x );
    if ( base >= kMin )
    {
        double l = std::log( double( base ) ) * y;
        if ( l > -86 && l < 88 && std::fabs( y ) <= 1000 )
        {
            double want = std::exp( l ), limit = want * std::expm1( 2e-6 + 3e-7 * ( std::fabs( l ) + std::fabs( y ) ) );
            float got = T::Pow( base, y );
            double e = std::fabs( got - want ) / limit;
            if ( measure ) { Worst& k = worst[ "Pow" ]; if ( !( e <= k.error ) ) { k.error = e; k.at = base; k.got = got; } }
            else if ( !( e <= 1 ) ) bad( "Pow", show( base ) + ", " + show( y ), show( got ), show( want ) );
        }
    }
    vf::st.evaluations++;
}

template <class I> static void whole( const char* fn, const std::string& arg, I got, I want )
{
    if ( got != want ) bad( fn, arg, show( static_cast<long long>( got ) ), show( static_cast<long long>( want ) ) );
}

template <int mod> static void modular( int x )
{
    if ( x < 0 ) x = ~x;
    x %= mod;
    whole( "IncMod", show( x ), T::IncMod<mod>( x ), ( x + 1 ) % mod );
    whole( "DecMod", show( x ), T::DecMod<mod>( x ), x == 0 ? mod - 1 : x - 1 );
}

static void integers( int x, int y, long long p, long long q )
{
    std::string a = show( x ) + ", " + show( y ), b = show( p ) + ", " + show( q );
    const int least = std::numeric_limits<int>::min();
    const long long least64 = std::numeric_limits<long long>::min();
    if ( x != least ) whole( "Abs", a, T::Abs( x ), x < 0 ? -x : x );
    if ( p != least64 ) whole<long long>( "Abs64", b, T::Abs64( p ), p < 0 ? -p : p );
    whole( "Sgn", a, T::Sgn( x ), x < 0 ? -1 : x > 0 ? 1 : 0 );
    whole<long long>( "Sgn64", b, T::Sgn64( p ), p < 0 ? -1 : p > 0 ? 1 : 0 );
    whole( "Min", a, T::Min( x, y ), x < y ? x : y );
    whole( "Max", a, T::Max( x, y ), x > y ? x : y );
    whole<long long>( "Min64", b, T::Min64( p, q ), p < q ? p : q );
    whole<long long>( "Max64", b, T::Max64( p, q ), p > q ? p : q );
    whole( "MinZero", a, T::MinZero( x ), x < 0 ? x : 0 );
    whole( "MaxZero", a, T::MaxZero( x ), x > 0 ? x : 0 );
    whole<long long>( "MinZero64", b, T::MinZero64( p ), p < 0 ? p : 0 );
    whole<long long>( "MaxZero64", b, T::MaxZero64( p ), p > 0 ? p : 0 );
    if ( x >= 0 && y >= 0 ) whole( "OverflowZero", a, T::OverflowZero( x, y ), x < y ? x : 0 );
    modular<1>( x );
    modular<2>( x );
    modular<7>( x );
    modular<64>( x );
    modular<1000000007>( x );
    modular<2147483647>( x );
    unsigned u = unsigned( x );
    int lead = 0;
    while ( lead < 32 && !( u >> ( 31 - lead ) & 1 ) ) lead++;
    whole( "Cntlz", show( u ), T::Cntlz( u ), lead );
    if ( u )
    {
        whole( "IntLog2", show( u ), T::IntLog2( u ), 31 - lead );
        whole( "Pow2Floor", show( u ), T::Pow2Floor( u ), 1u << ( 31 - lead ) );
        if ( u <= 0x80000000u )
        {
            unsigned want = 1;
            while ( want < u ) want *= 2;
            whole( "Pow2Ceil", show( u ), T::Pow2Ceil( u ), want );
        }
    }
    int m = x, n = y;
    T::Exchange( m, n );
    if ( m != y || n != x ) bad( "Exchange", a, show( m ) + ", " + show( n ), show( y ) + ", " + show( x ) );
    T::Exchange( m, m );
    if ( m != y ) bad( "Exchange with itself", a, show( m ), show( y ) );
    T::uint64 m6 = T::uint64( p ), n6 = T::uint64( q );
    T::Exchange( m6, n6 );
    if ( m6 != T::uint64( q ) || n6 != T::uint64( p ) ) bad( "Exchange", b, show( static_cast<long long>( m6 ) ), show( q ) );
    float f = float( x ), g = float( y );
    T::Exchange( f, g );
    if ( f != float( y ) || g != float( x ) ) bad( "Exchange<float>", a, show( f ), show( g ) );
    T::Exchange( f, f );
    if ( f != float( y ) ) bad( "Exchange<float> with itself", a, show( f ), show( g ) );
    unsigned char from[ 40 ], to[ 42 ];
    unsigned size = u % 41;
    for ( unsigned i = 0; i < 40; i++ ) from[ i ] = static_cast<unsigned char>( i * 7 + u );
    auto check = [ & ]( const char* fn, auto want ) {
        for ( unsigned i = 0; i < 42; i++ )
            if ( to[ i ] != ( i == 0 || i > size ? 0xEE : want( i - 1 ) ) ) bad( fn, show( size ), show( int( to[ i ] ) ), "another byte at " + show( i ) );
    };
    memset( to, 0xEE, 42 );
    T::CopyMemory( from, to + 1, size );
    check( "CopyMemory", [ & ]( unsigned i ) { return from[ i ]; } );
    memset( to, 0xEE, 42 );
    T::FillMemory( to + 1, size, static_cast<unsigned char>( y ) );
    check( "FillMemory", [ & ]( unsigned ) { return static_cast<unsigned char>( y ); } );
    memset( to, 0xEE, 42 );
    T::ClearMemory( to + 1, size );
    check( "ClearMemory", []( unsigned ) { return static_cast<unsigned char>( 0 ); } );
    vf::st.evaluations++;
}

static void constants()
{
    auto is = []( const char* n, float got, double want ) { if ( !( std::fabs( got - want ) <= std::fabs( want ) * 1.3e-7 ) ) bad( "constant", n, show( got ), show( want ) ); };
#define IS( n, v ) is( #n, T::Math::n, v )
    const double tau = 2 * kPi;
    IS( tau, tau ); IS( two_tau, 2 * tau ); IS( three_tau_over_4, .75 * tau ); IS( three_tau_over_8, .375 * tau ); IS( tau_over_2, tau / 2 ); IS( tau_over_3, tau / 3 ); IS( two_tau_over_3, 2 * tau / 3 );
    IS( tau_over_4, tau / 4 ); IS( tau_over_6, tau / 6 ); IS( tau_over_8, tau / 8 ); IS( tau_over_12, tau / 12 ); IS( tau_over_16, tau / 16 ); IS( tau_over_24, tau / 24 ); IS( tau_over_40, tau / 40 );
    IS( one_over_tau, 1 / tau ); IS( two_over_tau, 2 / tau ); IS( four_over_tau, 4 / tau ); IS( one_over_two_tau, .5 / tau );
    IS( pi, kPi ); IS( two_pi, 2 * kPi ); IS( four_pi, 4 * kPi ); IS( three_pi_over_2, 1.5 * kPi ); IS( three_pi_over_4, .75 * kPi ); IS( two_pi_over_3, 2 * kPi / 3 ); IS( four_pi_over_3, 4 * kPi / 3 );
    IS( pi_over_2, kPi / 2 ); IS( pi_over_3, kPi / 3 ); IS( pi_over_4, kPi / 4 ); IS( pi_over_6, kPi / 6 ); IS( pi_over_8, kPi / 8 ); IS( pi_over_12, kPi / 12 ); IS( pi_over_20, kPi / 20 );
    IS( one_over_pi, 1 / kPi ); IS( one_over_two_pi, .5 / kPi ); IS( one_over_four_pi, .25 / kPi );
    IS( sqrt_2, std::sqrt( 2.0 ) ); IS( sqrt_2_over_2, std::sqrt( 2.0 ) / 2 ); IS( sqrt_2_over_3, std::sqrt( 2.0 ) / 3 ); IS( sqrt_3, std::sqrt( 3.0 ) ); IS( sqrt_3_over_2, std::sqrt( 3.0 ) / 2 ); IS( sqrt_3_over_3, std::sqrt( 3.0 ) / 3 );
    IS( ln_2, std::log( 2.0 ) ); IS( one_over_ln_2, 1 / std::log( 2.0 ) ); IS( ln_10, std::log( 10.0 ) ); IS( one_over_ln_10, 1 / std::log( 10.0 ) ); IS( ln_256, std::log( 256.0 ) );
#undef IS
    if ( T::Math::infinity != std::numeric_limits<float>::infinity() || T::Math::minus_infinity != -std::numeric_limits<float>::infinity() || T::Math::min_float != kMin || T::Math::max_float != kMax ) bad( "constant", "limits", "another value", "the limits of float" );
    for ( int i = 0; i < 256; i++ )
        for ( int k = 0; k < 2; k++ )
        {
            double want = k ? std::sin( i * kPi / 128 ) : std::cos( i * kPi / 128 );
            if ( !( std::fabs( flt( T::Math::trigTable[ i ][ k ] ) - want ) <= 1e-6 ) ) bad( "trigTable", show( i ) + ", " + show( k ), show( flt( T::Math::trigTable[ i ][ k ] ) ), show( want ) );
        }
    // outside the domain of the logarithm
    for ( float z : { 0.0F, -0.0F } )
        if ( T::Log( z ) != -std::numeric_limits<float>::infinity() ) bad( "Log", show( z ), show( T::Log( z ) ), "minus infinity" );
    for ( float z : { -kMin, -1.0F, -kMax } )
        if ( T::Log( z ) == T::Log( z ) ) bad( "Log", show( z ), show( T::Log( z ) ), "no number" );
    if ( T::Sqrt( 0.0F ) != 0 ) bad( "Sqrt", "0", show( T::Sqrt( 0.0F ) ), "0" );
}

static float any( Rng& r )
{
    for ( ;; )
    {
        uint32_t b;
        switch ( r.below( 4 ) )
        {
            case 0: b = edges()[ r.below( uint32_t( edges().size() ) ) ]; break;
            case 1: b = uint32_t( r.next() ); break;
            case 2: b = bitsOf( float( r.range( -1000, 1000 ) ) / 8 ); break;
            default: b = bitsOf( float( int64_t( r.next() ) ) * 1e-17F ); break;
        }
        if ( ( b & 0x7f800000u ) != 0x7f800000u ) return flt( b );
    }
}

static void all()
{
    measure = vf::st.mode == "measure";
    const bool full = vf::st.mode == "full", few = vf::st.mode == "few";
    vf::stream( "constants", 1, []( uint64_t, Rng& ) { constants(); } );
    vf::stream( "edges", edges().size(), []( uint64_t i, Rng& ) { unary( flt( edges()[ i ] ) ); vf::st.evaluations++; vf::nontrivial( edges()[ i ] ); } );
    // floats with the same upper half
    vf::stream( "floats", 65536, [ & ]( uint64_t i, Rng& r ) {
        uint32_t n = full ? 65536 : few ? 4 : measure ? 4096 : 1024;
        uint32_t step = 65536 / n, at = r.below( step );
        if ( ( i & 0x7f80 ) == 0x7f80 ) return; // infinities and NaN
        for ( uint32_t k = 0; k < n; k++ ) unary( flt( uint32_t( i << 16 ) + k * step + at ) );
        unary( flt( uint32_t( i << 16 ) ) );
        unary( flt( uint32_t( i << 16 ) + 65535 ) );
        vf::st.evaluations += n;
        vf::event( "floats", n );
        vf::nontrivial( i << 16 | at | 1ull << 40 );
    }, 300 );
    // angles with even spacing, and the places around each table entry
    vf::stream( "angles", 4096, []( uint64_t i, Rng& r ) {
        for ( int k = 0; k < 64; k++ )
        {
            float x = float( ( double( i ) + double( r.below( 1 << 24 ) ) / ( 1 << 24 ) ) * ( 2 * kPi / 256 ) );
            unary( k & 1 ? -x : x );
            unary( float( std::sin( double( x ) ) ) );
            unary( float( std::tan( double( x ) ) ) );
            unary( ( x - 50 ) * 1.9F );
        }
        vf::st.evaluations += 256;
    } );
    vf::stream( "pairs", vf::scaled( few ? 4000 : 400000 ), []( uint64_t i, Rng& r ) {
        for ( int k = 0; k < 8; k++ )
        {
            float x = any( r ), y = any( r ), z = any( r ), w = any( r );
            binary( x, y, z, w );
            binary( x, x, y, y );
            binary( float( 1 + i % 100 ) / 10, float( r.range( -400, 400 ) ) / 10, x, y );
        }
        vf::nontrivial( i | 1ull << 41 );
    } );
    vf::stream( "integers", vf::scaled( few ? 20000 : 1000000 ), []( uint64_t i, Rng& r ) {
        static const std::vector<long long> e = { 0, 1, -1, 2, -2, 3, 7, 8, 63, 64, 65, 255, 256, 65535, 65536, 2147483646, 2147483647, -2147483647, -2147483648LL, 2147483648LL, 4294967295LL, 4294967296LL, std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min(), std::numeric_limits<long long>::min() + 1 };
        auto some = [ & ]() -> long long {
            switch ( r.below( 4 ) )
            {
                case 0: return e[ r.below( uint32_t( e.size() ) ) ];
                case 1: return static_cast<long long>( ( 1ull << r.below( 64 ) ) + uint64_t( r.below( 3 ) ) - 1 );
                case 2: return static_cast<long long>( r.next() );
                default: return static_cast<long long>( r.next() ) >> r.below( 64 );
            }
        };
        size_t n = e.size();
        if ( i < n * n ) integers( int( e[ i / n ] ), int( e[ i % n ] ), e[ i / n ], e[ i % n ] );
        else
        {
            long long a = some(), b = some(), c = some(), d = some();
            integers( int( a ), int( b ), c, d );
        }
        vf::nontrivial( i | 1ull << 42 );
    } );
    if ( measure )
        for ( auto& w : worst ) fprintf( stderr, "%-20s %.3f of the limit at %.9g: %.9g\n", w.first.c_str(), w.second.error, double( w.second.at ), double( w.second.got ) );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
