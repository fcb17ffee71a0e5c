// C22: vector operations against their definitions, lane by lane.
#include "common.h"
#include "TSMath.h"

#include <cmath>
#include <limits>
#include <memory>
#include <utility>

using namespace Terathon;
using vf::Rng;

static float flt( uint32_t b ) { float f; memcpy( &f, &b, 4 ); return f; }
static uint32_t bitsOf( float f ) { uint32_t b; memcpy( &b, &f, 4 ); return b; }

struct V { float l[ 4 ]; };
static std::string show( float x ) { char b[ 64 ]; snprintf( b, sizeof b, "%.9g [%08x]", double( x ), bitsOf( x ) ); return b; }
static std::string show( const V& v ) { return "<" + show( v.l[ 0 ] ) + " " + show( v.l[ 1 ] ) + " " + show( v.l[ 2 ] ) + " " + show( v.l[ 3 ] ) + ">"; }

static V A, B, C, D; // the arguments of this case

[[noreturn]] static void bad( const char* fn, int lane, const std::string& got, const std::string& want )
{
    vf::fail( std::string( fn ) + " of a=" + show( A ) + " b=" + show( B ) + " c=" + show( C ) + " d=" + show( D ) + ": lane " + std::to_string( lane ) + " is " + got + ", not " + want );
}

// Reads the lanes without the functions under test.
static V lanes( const vec_float& v ) { V o; memcpy( o.l, &v, 16 ); return o; }
static vec_float make( const V& v ) { vec_float o; memcpy( &o, v.l, 16 ); return o; }

template <class F> static void exact( const char* fn, const vec_float& got, F want, int n = 4 )
{
    V g = lanes( got );
    for ( int i = 0; i < n; i++ ) { float w = want( i ); if ( !( g.l[ i ] == w ) ) bad( fn, i, show( g.l[ i ] ), show( w ) ); }
    vf::st.evaluations++;
}
template <class F> static void bitwise( const char* fn, const vec_float& got, F want, int n = 4 )
{
    V g = lanes( got );
    for ( int i = 0; i < n; i++ ) { uint32_t w = want( i ); if ( bitsOf( g.l[ i ] ) != w ) bad( fn, i, show( g.l[ i ] ), show( flt( w ) ) ); }
    vf::st.evaluations++;
}
// want gives the value and the size of the terms it is made of; overflowing results are left open
template <class F> static void near( const char* fn, const vec_float& got, F want, int n = 4, double limit = 5e-7 )
{
    V g = lanes( got );
    for ( int i = 0; i < n; i++ )
    {
        std::pair<double, double> w = want( i );
        if ( w.second > 1e38 ) continue;
        if ( !( std::fabs( double( g.l[ i ] ) - w.first ) <= w.second * limit + 1e-43 ) ) bad( fn, i, show( g.l[ i ] ), show( float( w.first ) ) );
    }
    vf::st.evaluations++;
}

static std::pair<double, double> sum( std::initializer_list<double> t )
{
    double s = 0, m = 0;
    for ( double x : t ) { s += x; m += std::fabs( x ); }
    return { s, m };
}

template <int k> static void shuffle( const vec_float& a, const vec_float& b )
{
    bitwise( "VecShuffle", VecShuffle<( k >> 6 & 3 ), ( k >> 4 & 3 ), ( k >> 2 & 3 ), ( k & 3 )>( a, b ), []( int i ) { return bitsOf( ( i < 2 ? A : B ).l[ k >> ( 2 * i ) & 3 ] ); } );
}
template <int... k> static void shuffles( const vec_float& a, const vec_float& b, std::integer_sequence<int, k...> ) { ( shuffle<k>( a, b ), ... ); }

// Floats on the heap: exactly n of them, with nothing in front and behind.
struct Cells
{
    float* p;
    int n;
    explicit Cells( int n_, bool aligned = false ) : n( n_ )
    {
        void* q = nullptr;
        if ( aligned ) { if ( posix_memalign( &q, 32, size_t( n ) * 4 ) ) abort(); }
        else q = malloc( size_t( n ) * 4 );
        p = static_cast<float*>( q );
        for ( int i = 0; i < n; i++ ) p[ i ] = flt( 0x4B3A2F00u + unsigned( i ) );
    }
    ~Cells() { free( p ); }
    void fill( const V& v ) { for ( int i = 0; i < n; i++ ) p[ i ] = v.l[ i & 3 ]; }
    void is( const char* fn, std::initializer_list<float> w ) const
    {
        int i = 0;
        for ( float x : w ) { if ( bitsOf( p[ i ] ) != bitsOf( x ) ) bad( fn, i, show( p[ i ] ), show( x ) ); i++; }
        for ( ; i < n; i++ ) if ( bitsOf( p[ i ] ) != 0x4B3A2F00u + unsigned( i ) ) bad( fn, i, show( p[ i ] ), "what was there" );
    }
};

static void moving()
{
    vec_float a = make( A );
    {
        Cells al( 4, true ), un( 5 ), one( 1 );
        al.fill( A );
        bitwise( "VecLoad", VecLoad( al.p ), []( int i ) { return bitsOf( A.l[ i ] ); } );
        memcpy( un.p + 1, A.l, 16 );
        bitwise( "VecLoadUnaligned", VecLoadUnaligned( un.p + 1 ), []( int i ) { return bitsOf( A.l[ i ] ); } );
        one.p[ 0 ] = A.l[ 2 ];
        bitwise( "VecLoadScalar", VecLoadScalar( one.p ), []( int ) { return bitsOf( A.l[ 2 ] ); }, 1 );
        bitwise( "VecLoadSmearScalar", VecLoadSmearScalar( one.p ), []( int ) { return bitsOf( A.l[ 2 ] ); } );
    }
    { Cells m( 4, true ); VecStore( a, m.p ); m.is( "VecStore", { A.l[ 0 ], A.l[ 1 ], A.l[ 2 ], A.l[ 3 ] } ); }
    { Cells m( 6 ); VecStoreUnaligned( a, m.p + 1 ); m.is( "VecStoreUnaligned", { flt( 0x4B3A2F00u ), A.l[ 0 ], A.l[ 1 ], A.l[ 2 ], A.l[ 3 ] } ); }
    { Cells m( 2 ); VecStoreX( a, m.p ); m.is( "VecStoreX", { A.l[ 0 ] } ); }
    { Cells m( 2 ); VecStoreY( a, m.p ); m.is( "VecStoreY", { A.l[ 1 ] } ); }
    { Cells m( 2 ); VecStoreZ( a, m.p ); m.is( "VecStoreZ", { A.l[ 2 ] } ); }
    { Cells m( 2 ); VecStoreW( a, m.p ); m.is( "VecStoreW", { A.l[ 3 ] } ); }
    { Cells m( 4 ); VecStore3D( a, m.p ); m.is( "VecStore3D", { A.l[ 0 ], A.l[ 1 ], A.l[ 2 ] } ); }
    { Cells m( 3 ); VecStore3D( a, m.p ); m.is( "VecStore3D", { A.l[ 0 ], A.l[ 1 ], A.l[ 2 ] } ); }
    bitwise( "VecSmearX", VecSmearX( a ), []( int ) { return bitsOf( A.l[ 0 ] ); } );
    bitwise( "VecSmearY", VecSmearY( a ), []( int ) { return bitsOf( A.l[ 1 ] ); } );
    bitwise( "VecSmearZ", VecSmearZ( a ), []( int ) { return bitsOf( A.l[ 2 ] ); } );
    bitwise( "VecSmearW", VecSmearW( a ), []( int ) { return bitsOf( A.l[ 3 ] ); } );
    bitwise( "VecFloatGetZero", VecFloatGetZero(), []( int ) { return 0u; } );
    bitwise( "VecFloatGetMinusZero", VecFloatGetMinusZero(), []( int ) { return 0x80000000u; } );
    bitwise( "VecLoadVectorConstant", VecLoadVectorConstant<0x3F812345>(), []( int ) { return 0x3F812345u; } );
    bitwise( "VecLoadScalarConstant", VecLoadScalarConstant<0x3F812345>(), []( int ) { return 0x3F812345u; }, 1 );
}

// any finite floats
static void arithmetic()
{
    const vec_float a = make( A ), b = make( B ), c = make( C );
    exact( "VecNegate", VecNegate( a ), []( int i ) { return -A.l[ i ]; } );
    exact( "-a", -a, []( int i ) { return -A.l[ i ]; } );
    auto lo = []( int i ) { return B.l[ i ] < A.l[ i ] ? B.l[ i ] : A.l[ i ]; };
    auto hi = []( int i ) { return B.l[ i ] > A.l[ i ] ? B.l[ i ] : A.l[ i ]; };
    exact( "VecMin", VecMin( a, b ), lo );
    exact( "VecMinScalar", VecMinScalar( a, b ), lo, 1 );
    exact( "VecMax", VecMax( a, b ), hi );
    exact( "VecMaxScalar", VecMaxScalar( a, b ), hi, 1 );
    auto plus = []( int i ) { return A.l[ i ] + B.l[ i ]; };
    auto minus = []( int i ) { return A.l[ i ] - B.l[ i ]; };
    auto times = []( int i ) { return A.l[ i ] * B.l[ i ]; };
    exact( "VecAdd", VecAdd( a, b ), plus );
    exact( "a + b", a + b, plus );
    exact( "VecAddScalar", VecAddScalar( a, b ), plus, 1 );
    exact( "VecSub", VecSub( a, b ), minus );
    exact( "a - b", a - b, minus );
    exact( "VecSubScalar", VecSubScalar( a, b ), minus, 1 );
    exact( "VecMul", VecMul( a, b ), times );
    exact( "a * b", a * b, times );
    exact( "VecMulScalar", VecMulScalar( a, b ), times, 1 );
    auto madd = []( int i ) { return sum( { double( A.l[ i ] ) * B.l[ i ], double( C.l[ i ] ) } ); };
    auto nmsub = []( int i ) { return sum( { double( C.l[ i ] ), -double( A.l[ i ] ) * B.l[ i ] } ); };
    near( "VecMadd", VecMadd( a, b, c ), madd );
    near( "VecMaddScalar", VecMaddScalar( a, b, c ), madd, 1 );
    near( "VecNmsub", VecNmsub( a, b, c ), nmsub );
    near( "VecNmsubScalar", VecNmsubScalar( a, b, c ), nmsub, 1 );
    auto ratio = []( int i ) {
        double q = double( A.l[ i ] ) / B.l[ i ];
        return std::pair<double, double>( q, std::fabs( B.l[ i ] ) < 1e-37 ? 1e39 : std::fabs( q ) );
    };
    near( "VecDiv", VecDiv( a, b ), ratio, 4, 1e-6 );
    near( "a / b", a / b, ratio, 4, 1e-6 );
    near( "VecDivScalar", VecDivScalar( a, b ), ratio, 1, 1e-6 );

    auto sgn = []( int i ) { float x = A.l[ i ]; return x > 0 ? 1.0F : x < 0 ? -1.0F : 0.0F; };
    exact( "VecFsgn", VecFsgn( a ), sgn );
    exact( "VecFnsgn", VecFnsgn( a ), [ & ]( int i ) { return -sgn( i ); } );
    auto nz = []( float got, int i ) { return A.l[ i ] > 0 ? 1.0F : A.l[ i ] < 0 ? -1.0F : got < 0 ? -1.0F : 1.0F; }; // zero has either sign
    { V g = lanes( VecNonzeroFsgn( a ) ); exact( "VecNonzeroFsgn", make( g ), [ & ]( int i ) { return nz( g.l[ i ], i ); } ); }
    { V g = lanes( VecNonzeroFnsgn( a ) ); exact( "VecNonzeroFnsgn", make( g ), [ & ]( int i ) { return A.l[ i ] == 0 ? nz( g.l[ i ], i ) : -nz( 0, i ); } ); }

    auto fl = []( int i ) { return std::floor( A.l[ i ] ); };
    auto ce = []( int i ) { return std::ceil( A.l[ i ] ); };
    exact( "VecFloor", VecFloor( a ), fl );
    exact( "VecFloorScalar", VecFloorScalar( a ), fl, 1 );
    exact( "VecCeil", VecCeil( a ), ce );
    exact( "VecCeilScalar", VecCeilScalar( a ), ce, 1 );
    vec_float f, g;
    VecFloorCeil( a, &f, &g );
    exact( "VecFloorCeil, floor", f, fl );
    exact( "VecFloorCeil, ceil", g, ce );
    VecFloorCeilScalar( a, &f, &g );
    exact( "VecFloorCeilScalar, floor", f, fl, 1 );
    exact( "VecFloorCeilScalar, ceil", g, ce, 1 );

    // folded into the range of the one-sided variants
    V keep = A;
    for ( int sign : { 1, -1 } )
    {
        for ( int i = 0; i < 4; i++ ) A.l[ i ] = float( sign ) * ( std::fabs( keep.l[ i ] ) > 8388608.0F ? 8388608.0F / ( 1 + float( bitsOf( keep.l[ i ] ) % 1000 ) ) : std::fabs( keep.l[ i ] ) );
        vec_float x = make( A );
        if ( sign > 0 )
        {
            exact( "VecPositiveFloor", VecPositiveFloor( x ), fl );
            exact( "VecPositiveFloorScalar", VecPositiveFloorScalar( x ), fl, 1 );
            exact( "VecPositiveCeil", VecPositiveCeil( x ), ce );
            exact( "VecPositiveCeilScalar", VecPositiveCeilScalar( x ), ce, 1 );
            VecPositiveFloorCeil( x, &f, &g );
            exact( "VecPositiveFloorCeil, floor", f, fl );
            exact( "VecPositiveFloorCeil, ceil", g, ce );
            VecPositiveFloorCeilScalar( x, &f, &g );
            exact( "VecPositiveFloorCeilScalar, floor", f, fl, 1 );
            exact( "VecPositiveFloorCeilScalar, ceil", g, ce, 1 );
        }
        else
        {
            exact( "VecNegativeFloor", VecNegativeFloor( x ), fl );
            exact( "VecNegativeFloorScalar", VecNegativeFloorScalar( x ), fl, 1 );
            exact( "VecNegativeCeil", VecNegativeCeil( x ), ce );
            exact( "VecNegativeCeilScalar", VecNegativeCeilScalar( x ), ce, 1 );
            VecNegativeFloorCeil( x, &f, &g );
            exact( "VecNegativeFloorCeil, floor", f, fl );
            exact( "VecNegativeFloorCeil, ceil", g, ce );
            VecNegativeFloorCeilScalar( x, &f, &g );
            exact( "VecNegativeFloorCeilScalar, floor", f, fl, 1 );
            exact( "VecNegativeFloorCeilScalar, ceil", g, ce, 1 );
        }
    }
    // roots of normal numbers, and of zero
    for ( int i = 0; i < 4; i++ ) { A.l[ i ] = std::fabs( keep.l[ i ] ); if ( A.l[ i ] < std::numeric_limits<float>::min() ) A.l[ i ] = 1; }
    auto root = []( int i ) { double q = std::sqrt( double( A.l[ i ] ) ); return std::pair<double, double>( q, q ); };
    auto inverse = []( int i ) { double q = 1 / std::sqrt( double( A.l[ i ] ) ); return std::pair<double, double>( q, q ); };
    vec_float p = make( A );
    near( "VecInverseSqrt", VecInverseSqrt( p ), inverse, 4, 1e-6 );
    near( "VecInverseSqrtScalar", VecInverseSqrtScalar( p ), inverse, 1, 1e-6 );
    A.l[ bitsOf( keep.l[ 1 ] ) % 7 % 4 ] = 0;
    p = make( A );
    near( "VecSqrt", VecSqrt( p ), root, 4, 1e-6 );
    near( "VecSqrtScalar", VecSqrtScalar( p ), root, 1, 1e-6 );
    // conversions
    for ( int i = 0; i < 4; i++ ) A.l[ i ] = std::fabs( keep.l[ i ] ) < 2147483648.0F ? keep.l[ i ] : float( int32_t( bitsOf( keep.l[ i ] ) ) / 2 );
    p = make( A );
    if ( VecTruncateConvert( p ) != int( A.l[ 0 ] ) ) bad( "VecTruncateConvert", 0, std::to_string( VecTruncateConvert( p ) ), std::to_string( int( A.l[ 0 ] ) ) );
    {
        vec_int32 n = VecConvertInt32( p );
        int o[ 4 ];
        memcpy( o, &n, 16 );
        for ( int i = 0; i < 4; i++ )
            if ( !( std::fabs( double( o[ i ] ) - double( A.l[ i ] ) ) <= 0.5 ) ) bad( "VecConvertInt32", i, std::to_string( o[ i ] ), "the nearest integer" );
    }
    A = keep;
}

// any bits at all
static void logic()
{
    vec_float a = make( A ), b = make( B ), c = make( C );
    auto bit = []( const V& v, int i ) { return bitsOf( v.l[ i ] ); };
    bitwise( "VecAnd", VecAnd( a, b ), [ & ]( int i ) { return bit( A, i ) & bit( B, i ); } );
    bitwise( "a & b", a & b, [ & ]( int i ) { return bit( A, i ) & bit( B, i ); } );
    bitwise( "VecAndc", VecAndc( a, b ), [ & ]( int i ) { return bit( A, i ) & ~bit( B, i ); } );
    bitwise( "VecOr", VecOr( a, b ), [ & ]( int i ) { return bit( A, i ) | bit( B, i ); } );
    bitwise( "a | b", a | b, [ & ]( int i ) { return bit( A, i ) | bit( B, i ); } );
    bitwise( "VecXor", VecXor( a, b ), [ & ]( int i ) { return bit( A, i ) ^ bit( B, i ); } );
    bitwise( "a ^ b", a ^ b, [ & ]( int i ) { return bit( A, i ) ^ bit( B, i ); } );
    bitwise( "VecSelect", VecSelect( a, b, c ), [ & ]( int i ) { return ( bit( A, i ) & ~bit( C, i ) ) | ( bit( B, i ) & bit( C, i ) ); } );
    bitwise( "VecMaskCmpeq", VecMaskCmpeq( a, b ), []( int i ) { return A.l[ i ] == B.l[ i ] ? ~0u : 0u; } );
    bitwise( "VecMaskCmplt", VecMaskCmplt( a, b ), []( int i ) { return A.l[ i ] < B.l[ i ] ? ~0u : 0u; } );
    bitwise( "VecMaskCmpgt", VecMaskCmpgt( a, b ), []( int i ) { return A.l[ i ] > B.l[ i ] ? ~0u : 0u; } );
    bool nan = false;
    for ( int i = 0; i < 4; i++ ) nan |= A.l[ i ] != A.l[ i ] || B.l[ i ] != B.l[ i ];
    auto truth = []( const char* fn, bool got, bool want ) { if ( got != want ) bad( fn, 0, got ? "true" : "false", want ? "true" : "false" ); vf::st.evaluations++; };
    if ( !nan )
    {
        truth( "VecCmpeqScalar", VecCmpeqScalar( a, b ), A.l[ 0 ] == B.l[ 0 ] );
        truth( "VecCmpltScalar", VecCmpltScalar( a, b ), A.l[ 0 ] < B.l[ 0 ] );
        truth( "VecCmpgtScalar", VecCmpgtScalar( a, b ), A.l[ 0 ] > B.l[ 0 ] );
        bool lt = false, gt = false;
        for ( int i = 0; i < 3; i++ ) { lt |= A.l[ i ] < B.l[ i ]; gt |= A.l[ i ] > B.l[ i ]; }
        truth( "VecCmpltAny3D", VecCmpltAny3D( a, b ), lt );
        truth( "VecCmpgtAny3D", VecCmpgtAny3D( a, b ), gt );
    }
}

// moderate numbers
static void geometry()
{
    vec_float a = make( A ), b = make( B ), c = make( C ), d = make( D );
    const V v = { { 1.5F, -2, 3, 0.25F } };
    auto prod = []( const V& x, const V& y, int i ) { return double( x.l[ i ] ) * y.l[ i ]; };
    near( "VecHorizontalSum3D", VecHorizontalSum3D( a ), []( int ) { return sum( { A.l[ 0 ], A.l[ 1 ], A.l[ 2 ] } ); }, 1 );
    near( "VecDot3D", VecDot3D( a, b ), [ & ]( int ) { return sum( { prod( A, B, 0 ), prod( A, B, 1 ), prod( A, B, 2 ) } ); }, 1 );
    near( "VecDot4D", VecDot4D( a, b ), [ & ]( int ) { return sum( { prod( A, B, 0 ), prod( A, B, 1 ), prod( A, B, 2 ), prod( A, B, 3 ) } ); }, 1 );
    near( "VecPlaneDotPoint3D", VecPlaneDotPoint3D( a, b ), [ & ]( int ) { return sum( { prod( A, B, 0 ), prod( A, B, 1 ), prod( A, B, 2 ), double( A.l[ 3 ] ) } ); }, 1 );
    auto dot = sum( { prod( A, B, 0 ), prod( A, B, 1 ), prod( A, B, 2 ) } );
    near( "VecProject3D", VecProject3D( a, b ), [ & ]( int i ) { return std::pair<double, double>( dot.first * B.l[ i ], dot.second * std::fabs( B.l[ i ] ) ); }, 3 );
    near( "VecReject3D", VecReject3D( a, b ), [ & ]( int i ) { return std::pair<double, double>( A.l[ i ] - dot.first * B.l[ i ], std::fabs( A.l[ i ] ) + dot.second * std::fabs( B.l[ i ] ) ); }, 3 );
    near( "VecCross3D", VecCross3D( a, b ), []( int i ) { int j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; return sum( { double( A.l[ j ] ) * B.l[ k ], -double( A.l[ k ] ) * B.l[ j ] } ); }, 3 );
    near( "VecTransformVector3D", VecTransformVector3D( a, b, c, d ), []( int i ) { return sum( { double( A.l[ i ] ) * D.l[ 0 ], double( B.l[ i ] ) * D.l[ 1 ], double( C.l[ i ] ) * D.l[ 2 ] } ); }, 3 );
    near( "VecTransformPoint3D", VecTransformPoint3D( a, b, c, d, make( v ) ), [ & ]( int i ) { return sum( { double( A.l[ i ] ) * v.l[ 0 ], double( B.l[ i ] ) * v.l[ 1 ], double( C.l[ i ] ) * v.l[ 2 ], double( D.l[ i ] ) } ); }, 3 );
}

template <class T, class X> static std::vector<T> items( const X& v ) { std::vector<T> o( 16 / sizeof( T ) ); memcpy( o.data(), &v, 16 ); return o; }
template <class T, class X> static X from( const V& v ) { X x; static_assert( sizeof x == 16 ); memcpy( &x, v.l, 16 ); return x; }
template <class T> static T raw( const V& v, size_t i ) { T t; memcpy( &t, reinterpret_cast<const char*>( v.l ) + i * sizeof( T ), sizeof( T ) ); return t; }

template <class T, class X, class F> static void ints( const char* fn, const X& got, F want, size_t n = 16 / sizeof( T ) )
{
    auto g = items<T>( got );
    for ( size_t i = 0; i < n; i++ )
    {
        long long w = want( i );
        if ( ( long long )g[ i ] != w ) bad( fn, int( i ), std::to_string( ( long long )g[ i ] ), std::to_string( w ) );
    }
    vf::st.evaluations++;
}

template <class T> static T sat( long long x ) { return T( x < std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : x > std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : x ); }

static void integers()
{
    vec_int32 a = from<int32, vec_int32>( A ), b = from<int32, vec_int32>( B );
    ints<int8>( "VecInt8GetZero", VecInt8GetZero(), []( size_t ) { return 0; } );
    ints<int16>( "VecInt16GetZero", VecInt16GetZero(), []( size_t ) { return 0; } );
    ints<int32>( "VecInt32GetZero", VecInt32GetZero(), []( size_t ) { return 0; } );
    ints<int8>( "VecInt8GetInfinity", VecInt8GetInfinity(), []( size_t ) { return -128; } );
    {
        Cells al( 4, true ), un( 5 );
        al.fill( A );
        char* q = reinterpret_cast<char*>( un.p ) + ( bitsOf( B.l[ 0 ] ) % 5 );
        memcpy( q, A.l, 16 );
        ints<int8>( "VecInt8Load", VecInt8Load( reinterpret_cast<int8*>( al.p ) ), []( size_t i ) { return raw<int8>( A, i ); } );
        ints<uint8>( "VecUInt8Load", VecUInt8Load( reinterpret_cast<uint8*>( al.p ) ), []( size_t i ) { return raw<uint8>( A, i ); } );
        ints<int16>( "VecInt16Load", VecInt16Load( reinterpret_cast<int16*>( al.p ) ), []( size_t i ) { return raw<int16>( A, i ); } );
        ints<uint16>( "VecUInt16Load", VecUInt16Load( reinterpret_cast<uint16*>( al.p ) ), []( size_t i ) { return raw<uint16>( A, i ); } );
        ints<int8>( "VecInt8LoadUnaligned", VecInt8LoadUnaligned( reinterpret_cast<int8*>( q ) ), []( size_t i ) { return raw<int8>( A, i ); } );
        ints<uint8>( "VecUInt8LoadUnaligned", VecUInt8LoadUnaligned( reinterpret_cast<uint8*>( q ) ), []( size_t i ) { return raw<uint8>( A, i ); } );
        q = reinterpret_cast<char*>( un.p ) + 2 * ( bitsOf( B.l[ 0 ] ) % 3 );
        memcpy( q, A.l, 16 );
        ints<int16>( "VecInt16LoadUnaligned", VecInt16LoadUnaligned( reinterpret_cast<int16*>( q ) ), []( size_t i ) { return raw<int16>( A, i ); } );
        ints<uint16>( "VecUInt16LoadUnaligned", VecUInt16LoadUnaligned( reinterpret_cast<uint16*>( q ) ), []( size_t i ) { return raw<uint16>( A, i ); } );
    }
    std::unique_ptr<int32> one( new int32 );
    auto stored = [ & ]( const char* fn, size_t i ) { if ( *one != raw<int32>( A, i ) ) bad( fn, int( i ), std::to_string( *one ), std::to_string( raw<int32>( A, i ) ) ); };
    VecInt32StoreX( a, one.get() ); stored( "VecInt32StoreX", 0 );
    VecInt32StoreY( a, one.get() ); stored( "VecInt32StoreY", 1 );
    VecInt32StoreZ( a, one.get() ); stored( "VecInt32StoreZ", 2 );
    VecInt32StoreW( a, one.get() ); stored( "VecInt32StoreW", 3 );
    // small numbers too, so that not everything saturates
    for ( int pass = 0; pass < 2; pass++ )
    {
        V keep = A, keepB = B;
        if ( pass ) for ( int i = 0; i < 4; i++ )
        {
            A.l[ i ] = flt( uint32_t( int32_t( bitsOf( keep.l[ i ] ) ) >> ( 8 + 7 * ( i & 1 ) ) ) );
            B.l[ i ] = flt( uint32_t( int32_t( bitsOf( keepB.l[ i ] ) ) >> 15 ) );
        }
        vec_int32 x = from<int32, vec_int32>( A ), y = from<int32, vec_int32>( B );
        ints<int16>( "VecInt32PackSaturate/1", VecInt32PackSaturate( x ), []( size_t i ) { return sat<int16>( raw<int32>( A, i & 3 ) ); } );
        ints<int16>( "VecInt32PackSaturate/2", VecInt32PackSaturate( x, y ), []( size_t i ) { return sat<int16>( raw<int32>( i < 4 ? A : B, i & 3 ) ); } );
        vec_int16 s = from<int16, vec_int16>( A );
        if ( pass )
        {
            V t = A;
            for ( int i = 0; i < 8; i++ ) { int16 q = int16( raw<int16>( keep, size_t( i ) ) >> ( 6 + i % 3 ) ); memcpy( reinterpret_cast<char*>( t.l ) + 2 * i, &q, 2 ); }
            A = t;
            s = from<int16, vec_int16>( A );
        }
        ints<int8>( "VecInt16PackSaturate", VecInt16PackSaturate( s ), []( size_t i ) { return sat<int8>( raw<int16>( A, i & 7 ) ); } );
        ints<uint8>( "VecInt16PackUnsignedSaturate", VecInt16PackUnsignedSaturate( s ), []( size_t i ) { return sat<uint8>( raw<int16>( A, i & 7 ) ); } );
        A = keep;
        B = keepB;
    }
    vec_int8 e = from<int8, vec_int8>( A ), e2 = from<int8, vec_int8>( B );
    vec_uint8 u = from<uint8, vec_uint8>( A ), u2 = from<uint8, vec_uint8>( B );
    vec_int16 h = from<int16, vec_int16>( A );
    vec_uint16 uh = from<uint16, vec_uint16>( A );
    ints<int16>( "VecInt8UnpackA", VecInt8UnpackA( e ), []( size_t i ) { return raw<int8>( A, i ); } );
    ints<int16>( "VecInt8UnpackB", VecInt8UnpackB( e ), []( size_t i ) { return raw<int8>( A, i + 8 ); } );
    ints<uint16>( "VecUInt8UnpackA", VecUInt8UnpackA( u ), []( size_t i ) { return raw<uint8>( A, i ); } );
    ints<uint16>( "VecUInt8UnpackB", VecUInt8UnpackB( u ), []( size_t i ) { return raw<uint8>( A, i + 8 ); } );
    ints<int32>( "VecInt16UnpackA", VecInt16UnpackA( h ), []( size_t i ) { return raw<int16>( A, i ); } );
    ints<int32>( "VecInt16UnpackB", VecInt16UnpackB( h ), []( size_t i ) { return raw<int16>( A, i + 4 ); } );
    ints<uint32>( "VecUInt16UnpackA", VecUInt16UnpackA( uh ), []( size_t i ) { return raw<uint16>( A, i ); } );
    ints<uint32>( "VecUInt16UnpackB", VecUInt16UnpackB( uh ), []( size_t i ) { return raw<uint16>( A, i + 4 ); } );
    ints<int8>( "VecInt8MergeA", VecInt8MergeA( e, e2 ), []( size_t i ) { return raw<int8>( i & 1 ? B : A, i / 2 ); } );
    ints<int8>( "VecInt8MergeB", VecInt8MergeB( e, e2 ), []( size_t i ) { return raw<int8>( i & 1 ? B : A, i / 2 + 8 ); } );
    ints<uint8>( "VecUInt8MergeA", VecUInt8MergeA( u, u2 ), []( size_t i ) { return raw<uint8>( i & 1 ? B : A, i / 2 ); } );
    ints<uint8>( "VecUInt8MergeB", VecUInt8MergeB( u, u2 ), []( size_t i ) { return raw<uint8>( i & 1 ? B : A, i / 2 + 8 ); } );
    ints<int16>( "VecInt16Deinterleave", VecInt16Deinterleave( h ), []( size_t i ) { return raw<int16>( A, i < 4 ? 2 * i : 2 * i - 7 ); } );
    ints<int32>( "VecInt32Add", VecInt32Add( a, b ), []( size_t i ) { return int32( raw<uint32>( A, i ) + raw<uint32>( B, i ) ); } );
    ints<int32>( "VecInt32Sub", VecInt32Sub( a, b ), []( size_t i ) { return int32( raw<uint32>( A, i ) - raw<uint32>( B, i ) ); } );
    exact( "VecInt32ConvertFloat", VecInt32ConvertFloat( a ), []( int i ) { return float( raw<int32>( A, size_t( i ) ) ); } );
}

#ifdef TERATHON_AVX
static void extended()
{
    struct W { float l[ 8 ]; };
    auto lanesOf = []( const exv_float& v ) { W o; memcpy( o.l, &v, 32 ); return o; };
    auto mk = []( const V& lo, const V& hi ) { exv_float o; memcpy( &o, lo.l, 16 ); memcpy( reinterpret_cast<char*>( &o ) + 16, hi.l, 16 ); return o; };
    auto at = []( const V& lo, const V& hi, int i ) { return ( i < 4 ? lo : hi ).l[ i & 3 ]; };
    auto bitwise8 = [ & ]( const char* fn, const exv_float& got, auto want ) {
        W g = lanesOf( got );
        for ( int i = 0; i < 8; i++ ) if ( bitsOf( g.l[ i ] ) != bitsOf( want( i ) ) ) bad( fn, i, show( g.l[ i ] ), show( want( i ) ) );
        vf::st.evaluations++;
    };
    exv_float x = mk( A, B ), y = mk( C, D );
    bitwise8( "ExvFloat", ExvFloat( make( A ), make( B ) ), [ & ]( int i ) { return at( A, B, i ); } );
    bitwise8( "ExvFloatGetZero", ExvFloatGetZero(), []( int ) { return 0.0F; } );
    bitwise8( "ExvFloatGetMinusZero", ExvFloatGetMinusZero(), []( int ) { return -0.0F; } );
    bitwise8( "ExvSmearX", ExvSmearX( x ), [ & ]( int i ) { return at( A, B, i & 4 ); } );
    bitwise8( "ExvSmearY", ExvSmearY( x ), [ & ]( int i ) { return at( A, B, ( i & 4 ) + 1 ); } );
    bitwise8( "ExvSmearZ", ExvSmearZ( x ), [ & ]( int i ) { return at( A, B, ( i & 4 ) + 2 ); } );
    bitwise8( "ExvSmearW", ExvSmearW( x ), [ & ]( int i ) { return at( A, B, ( i & 4 ) + 3 ); } );
    bitwise8( "ExvSmearVecLo", ExvSmearVecLo( x ), []( int i ) { return A.l[ i & 3 ]; } );
    bitwise8( "ExvSmearVecHi", ExvSmearVecHi( x ), []( int i ) { return B.l[ i & 3 ]; } );
    {
        Cells m( 8, true ), one( 1 );
        memcpy( m.p, A.l, 16 );
        memcpy( m.p + 4, B.l, 16 );
        bitwise8( "ExvLoad", ExvLoad( m.p ), [ & ]( int i ) { return at( A, B, i ); } );
        one.p[ 0 ] = A.l[ 1 ];
        bitwise8( "ExvLoadSmearScalar", ExvLoadSmearScalar( one.p ), []( int ) { return A.l[ 1 ]; } );
    }
    { Cells m( 8, true ); ExvStore( x, m.p ); m.is( "ExvStore", { A.l[ 0 ], A.l[ 1 ], A.l[ 2 ], A.l[ 3 ], B.l[ 0 ], B.l[ 1 ], B.l[ 2 ], B.l[ 3 ] } ); }
    { Cells m( 2 ); ExvStoreX( x, m.p ); m.is( "ExvStoreX", { A.l[ 0 ] } ); }
    { Cells m( 2 ); ExvStoreY( x, m.p ); m.is( "ExvStoreY", { A.l[ 1 ] } ); }
    { Cells m( 2 ); ExvStoreZ( x, m.p ); m.is( "ExvStoreZ", { A.l[ 2 ] } ); }
    { Cells m( 2 ); ExvStoreW( x, m.p ); m.is( "ExvStoreW", { A.l[ 3 ] } ); }
    auto near8 = [ & ]( const char* fn, const exv_float& got, auto want ) {
        W g = lanesOf( got );
        for ( int i = 0; i < 8; i++ )
        {
            std::pair<double, double> w = want( i );
            if ( w.second < 1e38 && !( std::fabs( g.l[ i ] - w.first ) <= w.second * 5e-7 + 1e-43 ) ) bad( fn, i, show( g.l[ i ] ), show( float( w.first ) ) );
        }
        vf::st.evaluations++;
    };
    auto prod = [ & ]( int i ) { return double( at( A, B, i ) ) * at( C, D, i ); };
    near8( "ExvMul", ExvMul( x, y ), [ & ]( int i ) { return sum( { prod( i ) } ); } );
    near8( "x * y", x * y, [ & ]( int i ) { return sum( { prod( i ) } ); } );
    near8( "ExvMadd", ExvMadd( x, y, mk( D, A ) ), [ & ]( int i ) { return sum( { prod( i ), double( at( D, A, i ) ) } ); } );
}
#endif

static float finite( Rng& r )
{
    static const std::vector<float> e = { 0.0F, -0.0F, 0.5F, 1, 1.5F, 2, 2.5F, 3, 4194303.5F, 4194304, 4194305, 8388607, 8388607.5F, 8388608, 8388609, 16777215, 16777216, 2147483520.0F, 1e10F, 1e30F, std::numeric_limits<float>::max(), std::numeric_limits<float>::min(), 1e-45F, 0.49999997F, 0.99999994F, 1.0000001F };
    for ( ;; )
    {
        float f;
        switch ( r.below( 4 ) )
        {
            case 0: f = e[ r.below( uint32_t( e.size() ) ) ]; break;
            case 1: f = flt( uint32_t( r.next() ) ); break;
            case 2: f = float( r.range( -4000, 4000 ) ) / 8; break;
            default: f = std::ldexp( float( r.below( 1 << 24 ) ), r.range( -30, 4 ) ); break;
        }
        if ( r.chance( 1, 2 ) ) f = -f;
        if ( std::isfinite( f ) ) return f;
    }
}

static void hashed()
{
    uint64_t h = vf::hashBytes( &A, sizeof A );
    h = vf::hashBytes( &B, sizeof B, h );
    vf::nontrivial( h );
}

static void all()
{
    vf::stream( "finite", vf::scaled( 400000 ), []( uint64_t, Rng& r ) {
        for ( V* v : { &A, &B, &C, &D } ) for ( float& f : v->l ) f = finite( r );
        if ( r.chance( 1, 4 ) ) B.l[ r.below( 4 ) ] = A.l[ r.below( 4 ) ];
        arithmetic();
        moving();
        hashed();
    } );
    vf::stream( "bits", vf::scaled( 400000 ), []( uint64_t i, Rng& r ) {
        for ( V* v : { &A, &B, &C, &D } )
            for ( float& f : v->l )
                switch ( r.below( 3 ) )
                {
                    case 0: f = flt( uint32_t( r.next() ) ); break;
                    case 1: f = finite( r ); break;
                    default: { static const uint32_t m[] = { 0, ~0u, 0x80000000u, 0x7fffffffu, 0x7f807f80u, 0x80008000u, 0x00ff00ffu, 0x7fff8000u, 0xffff7fffu, 0x0080ff7fu }; f = flt( m[ r.below( 10 ) ] ); }
                }
        if ( r.chance( 1, 3 ) ) B.l[ 0 ] = A.l[ 0 ];
        if ( r.chance( 1, 3 ) ) { B = A; B.l[ r.below( 4 ) ] = finite( r ); }
        logic();
        integers();
        if ( i % 16 == 0 ) shuffles( make( A ), make( B ), std::make_integer_sequence<int, 256>() );
#ifdef TERATHON_AVX
        extended();
#endif
        hashed();
    } );
    vf::stream( "moderate", vf::scaled( 400000 ), []( uint64_t, Rng& r ) {
        for ( V* v : { &A, &B, &C, &D } ) for ( float& f : v->l ) f = r.chance( 1, 3 ) ? float( r.range( -8, 8 ) ) : std::ldexp( float( r.range( -8388608, 8388608 ) ), r.range( -40, 0 ) );
        geometry();
        arithmetic();
#ifdef TERATHON_AVX
        extended();
#endif
        hashed();
    } );
}

int main( int argc, char** argv )
{
#ifdef TERATHON_AVX
    if ( !__builtin_cpu_supports( "avx2" ) ) { vf::init( argc, argv ); vf::event( "no AVX on this machine" ); return vf::finish(); }
#endif
    return vf::main( argc, argv, all );
}
