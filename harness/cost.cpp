// C18: work and memory against the length of the text. Everything is compiled with basic-block counting; the counters
// run only inside the library's calls.
#include "lib.h"
#include "gen.h"

#include <cstdarg>
#include <new>
#include <pthread.h>
#include <sys/mman.h>

using namespace lib;
using vf::Rng;

#define QUIET __attribute__( ( no_sanitize( "coverage" ), noinline ) )

namespace cost
{
    static bool     on = false;
    static uint64_t blocks = 0, moved = 0, calls = 0, taken = 0, allocs = 0, live = 0, peak = 0, system = 0;
    // blocks of code, memory touched by library functions (16 bytes are one), allocations and system calls
    static uint64_t work() { return blocks + moved / 16 + calls + allocs * 20 + system * 20; }
    static void reset() { blocks = moved = calls = taken = allocs = system = 0; peak = live; }
} // namespace cost

extern "C"
{
    QUIET void __sanitizer_cov_trace_pc_guard_init( uint32_t*, uint32_t* ) {}
    QUIET void __sanitizer_cov_trace_pc_guard( uint32_t* ) { if ( cost::on ) cost::blocks++; }

    void* __real_memcpy( void*, const void*, size_t );
    void* __real_memmove( void*, const void*, size_t );
    void* __real_memset( void*, int, size_t );
    int   __real_memcmp( const void*, const void*, size_t );
    size_t __real_strlen( const char* );
    int   __real_strcmp( const char*, const char* );
    char* __real_strcpy( char*, const char* );
    double __real_strtod( const char*, char** );
    ssize_t __real_write( int, const void*, size_t );
    ssize_t __real_read( int, void*, size_t );
    static inline void touch( size_t n ) { if ( cost::on ) { cost::moved += n; cost::calls++; } }
    QUIET void* __wrap_memcpy( void* a, const void* b, size_t n ) { touch( n ); return __real_memcpy( a, b, n ); }
    QUIET void* __wrap_memmove( void* a, const void* b, size_t n ) { touch( n ); return __real_memmove( a, b, n ); }
    QUIET void* __wrap_memset( void* a, int b, size_t n ) { touch( n ); return __real_memset( a, b, n ); }
    QUIET int __wrap_memcmp( const void* a, const void* b, size_t n ) { touch( n ); return __real_memcmp( a, b, n ); }
    QUIET size_t __wrap_strlen( const char* a ) { size_t n = __real_strlen( a ); touch( n ); return n; }
    QUIET int __wrap_strcmp( const char* a, const char* b ) { size_t n = 0; while ( a[ n ] && a[ n ] == b[ n ] ) n++; touch( n ); return __real_strcmp( a, b ); }
    QUIET char* __wrap_strcpy( char* a, const char* b ) { touch( __real_strlen( b ) ); return __real_strcpy( a, b ); }
    // conversion of a literal is linear in its length; the bytes behind the literal do not matter
    QUIET double __wrap_strtod( const char* a, char** e ) { char* end; double d = __real_strtod( a, &end ); if ( e ) *e = end; touch( size_t( end - a ) * 16 ); return d; }
    char* __real_strchr( const char*, int );
    char* __real_strrchr( const char*, int );
    void* __real_memchr( const void*, int, size_t );
    size_t __real_strnlen( const char*, size_t );
    int   __real_strncmp( const char*, const char*, size_t );
    char* __real_strncpy( char*, const char*, size_t );
    char* __real_strstr( const char*, const char* );
    size_t __real_strspn( const char*, const char* );
    size_t __real_strcspn( const char*, const char* );
    char* __real_strcat( char*, const char* );
    size_t __real_fread( void*, size_t, size_t, FILE* );
    size_t __real_fwrite( const void*, size_t, size_t, FILE* );
    QUIET char* __wrap_strchr( const char* a, int c ) { char* r = __real_strchr( a, c ); touch( r ? size_t( r - a ) : __real_strlen( a ) ); return r; }
    QUIET char* __wrap_strrchr( const char* a, int c ) { touch( __real_strlen( a ) ); return __real_strrchr( a, c ); }
    QUIET void* __wrap_memchr( const void* a, int c, size_t n ) { void* r = __real_memchr( a, c, n ); touch( r ? size_t( static_cast<char*>( r ) - static_cast<const char*>( a ) ) : n ); return r; }
    QUIET size_t __wrap_strnlen( const char* a, size_t n ) { size_t r = __real_strnlen( a, n ); touch( r ); return r; }
    QUIET int __wrap_strncmp( const char* a, const char* b, size_t n ) { size_t i = 0; while ( i < n && a[ i ] && a[ i ] == b[ i ] ) i++; touch( i ); return __real_strncmp( a, b, n ); }
    QUIET char* __wrap_strncpy( char* a, const char* b, size_t n ) { touch( n ); return __real_strncpy( a, b, n ); }
    QUIET char* __wrap_strstr( const char* a, const char* b ) { char* r = __real_strstr( a, b ); touch( r ? size_t( r - a ) : __real_strlen( a ) ); return r; }
    QUIET size_t __wrap_strspn( const char* a, const char* b ) { size_t r = __real_strspn( a, b ); touch( r ); return r; }
    QUIET size_t __wrap_strcspn( const char* a, const char* b ) { size_t r = __real_strcspn( a, b ); touch( r ); return r; }
    QUIET char* __wrap_strcat( char* a, const char* b ) { touch( __real_strlen( a ) + __real_strlen( b ) ); return __real_strcat( a, b ); }
    QUIET size_t __wrap_fread( void* p, size_t n, size_t k, FILE* f ) { size_t r = __real_fread( p, n, k, f ); touch( n * r ); return r; }
    QUIET size_t __wrap_fwrite( const void* p, size_t n, size_t k, FILE* f ) { touch( n * k ); return __real_fwrite( p, n, k, f ); }
    // scanning looks for the end of the text first
    QUIET int __wrap_sscanf( const char* a, const char* f, ... ) { touch( __real_strlen( a ) ); va_list l; va_start( l, f ); int r = vsscanf( a, f, l ); va_end( l ); return r; }
    QUIET int __wrap___isoc99_sscanf( const char* a, const char* f, ... ) { touch( __real_strlen( a ) ); va_list l; va_start( l, f ); int r = vsscanf( a, f, l ); va_end( l ); return r; }
    QUIET int __wrap___isoc23_sscanf( const char* a, const char* f, ... ) { touch( __real_strlen( a ) ); va_list l; va_start( l, f ); int r = vsscanf( a, f, l ); va_end( l ); return r; }
    QUIET double __wrap_atof( const char* a ) { return __wrap_strtod( a, nullptr ); }
    QUIET ssize_t __wrap_write( int f, const void* p, size_t n ) { if ( cost::on ) cost::system++; touch( n ); return __real_write( f, p, n ); }
    QUIET ssize_t __wrap_read( int f, void* p, size_t n ) { if ( cost::on ) cost::system++; ssize_t r = __real_read( f, p, n ); if ( r > 0 ) touch( size_t( r ) ); return r; }
}

QUIET static void* take( size_t n )
{
    size_t* p = static_cast<size_t*>( malloc( n + 16 ) );
    if ( !p ) abort();
    *p = n;
    cost::live += n;
    if ( cost::on ) { cost::taken += n; cost::allocs++; }
    if ( cost::live > cost::peak ) cost::peak = cost::live;
    return p + 2;
}
QUIET static void give( void* q )
{
    if ( !q ) return;
    size_t* p = static_cast<size_t*>( q ) - 2;
    cost::live -= *p;
    free( p );
}
QUIET void* operator new( size_t n ) { return take( n ); }
QUIET void* operator new[]( size_t n ) { return take( n ); }
QUIET void  operator delete( void* p ) noexcept { give( p ); }
QUIET void  operator delete[]( void* p ) noexcept { give( p ); }
QUIET void  operator delete( void* p, size_t ) noexcept { give( p ); }
QUIET void  operator delete[]( void* p, size_t ) noexcept { give( p ); }

struct Measure
{
    double work = 0, memory = 0, peak = 0, size = 0, stack = 0;
};

// A stack of its own for the calls, painted to see how far down they go.
constexpr size_t stackSize = 4 << 20, paint = 1 << 20;
static char*  stackBase;
static size_t dirty = paint;

template <class F> static Measure measure( F&& f )
{
    Measure m;
    if ( !stackBase )
    {
        void* p = mmap( nullptr, stackSize + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0 );
        if ( p == MAP_FAILED || mprotect( p, 4096, PROT_NONE ) != 0 ) vf::harnessError( "no stack" );
        stackBase = static_cast<char*>( p ) + 4096;
    }
    char* top = stackBase + stackSize;
    uint64_t* low = reinterpret_cast<uint64_t*>( top - dirty );
    for ( uint64_t* p = low; p != reinterpret_cast<uint64_t*>( top ); p++ ) *p = 0x5a5a5a5a5a5a5a5aull;
    struct Job { F* f; uint64_t before; std::exception_ptr error; } job { &f, 0, nullptr };
    pthread_attr_t attr;
    pthread_t thread;
    if ( pthread_attr_init( &attr ) != 0 || pthread_attr_setstack( &attr, stackBase, stackSize ) != 0 ) vf::harnessError( "stack" );
    int rc = pthread_create( &thread, &attr, []( void* p ) -> void* {
        Job& j = *static_cast<Job*>( p );
        try
        {
            j.before = cost::live;
            cost::reset();
            cost::on = true;
            ( *j.f )();
            cost::on = false;
        }
        catch ( ... ) { cost::on = false; j.error = std::current_exception(); }
        return nullptr;
    }, &job );
    if ( rc != 0 ) vf::harnessError( "thread" );
    pthread_join( thread, nullptr );
    pthread_attr_destroy( &attr );
    if ( job.error ) std::rethrow_exception( job.error );
    uint64_t before = job.before;
    uint64_t* q = reinterpret_cast<uint64_t*>( stackBase );
    while ( q != reinterpret_cast<uint64_t*>( top ) && ( *q == 0x5a5a5a5a5a5a5a5aull || *q == 0 ) ) q++;
    m.stack = double( top - reinterpret_cast<char*>( q ) );
    dirty = std::max( paint, size_t( top - reinterpret_cast<char*>( q ) ) );
    m.work = double( cost::work() );
    m.memory = double( cost::taken );
    m.peak = double( cost::peak - before );
    return m;
}

// The cost at sizes n and many n: it may grow with the size (times a logarithm), not with its square.
static double worst = 0;

static void grows( const std::string& family, const std::string& op, const char* quantity, double c0, double s0, double c1, double s1, double floorCost )
{
    double scale = s1 / s0;
    if ( scale < 4 ) return;
    // costs too small to tell anything are lifted to a floor
    double base = c0 > floorCost ? c0 : floorCost;
    double growth = c1 / base / scale;
    if ( growth > worst ) { worst = growth; }
    vf::event( growth < 0.6 ? "growth below 0.6 of the length's" : growth < 1.2 ? "growth 0.6-1.2 of the length's" : growth < 1.8 ? "growth 1.2-1.8 of the length's" : "growth above 1.8 of the length's" );
    vf::st.evaluations++;
    if ( growth > 3.0 )
    {
        char b[ 300 ];
        snprintf( b, sizeof b, "%s grows from %.0f to %.0f when the length grows from %.0f to %.0f: %.1f times faster than the length", quantity, c0, c1, s0, s1, growth );
        vf::fail( op + " of " + family + ": " + b );
    }
}

static void judge( const std::string& family, const std::string& op, const std::vector<Measure>& m )
{
    for ( size_t i = 0; i < m.size(); i++ )
        for ( size_t j = i + 1; j < m.size(); j++ )
        {
            grows( family, op, "the work", m[ i ].work, m[ i ].size, m[ j ].work, m[ j ].size, 30 * m[ i ].size + 2000 );
            grows( family, op, "the memory taken", m[ i ].memory, m[ i ].size, m[ j ].memory, m[ j ].size, 16 * m[ i ].size + 4096 );
            grows( family, op, "the memory held", m[ i ].peak, m[ i ].size, m[ j ].peak, m[ j ].size, 16 * m[ i ].size + 4096 );
        }
}

using Family = std::function<std::string( int )>;

// Nesting, at most that which the parser enters.
static int nesting( const std::string& t )
{
    int d = 0, deepest = 0;
    bool quoted = false;
    for ( size_t i = 0; i < t.size(); i++ )
    {
        if ( quoted ) { if ( t[ i ] == '\\' ) i++; else if ( t[ i ] == '"' ) quoted = false; }
        else if ( t[ i ] == '"' ) quoted = true;
        else if ( t[ i ] == '[' || t[ i ] == '{' ) deepest = std::max( deepest, ++d );
        else if ( t[ i ] == ']' || t[ i ] == '}' ) d--;
    }
    return std::min( deepest, 520 );
}

// 1 MB for the deepest accepted text
static double deepestStack = 0;
static void stackOf( const std::string& family, const char* op, const Measure& m, int depth )
{
    vf::st.evaluations++;
    deepestStack = std::max( deepestStack, m.stack );
    double may = 256 * 1024 + 1536.0 * depth;
    if ( m.stack > may )
        vf::fail( std::string( op ) + " of " + family + ": takes " + std::to_string( int( m.stack ) ) + " bytes of stack at a nesting of " + std::to_string( depth ) + " and a length of " + std::to_string( int( m.size ) ) );
}

static std::string outPath, inPath;

static void lookAll( const Value* v, uint64_t& found )
{
    if ( const ObjectValue* o = v->AsJsonObjectValue() )
        for ( const Value* e : *o )
        {
            const char* n = e->name;
            if ( o->FindMapElement( n ) ) found++;
            if ( o->FindNumber( n ) ) found++;
            lookAll( e, found );
        }
    else if ( const Array<Value*>* a = v->GetDataAsPointerTo<Array<Value*>>() )
        for ( const Value* e : *a ) lookAll( e, found );
}

static void family( const std::string& name, const std::vector<int>& sizes, const Family& f, Rng& r )
{
    std::vector<Measure> parsing, destroying, looking, writing[ 3 ], reading;
    bool ok = true;
    for ( int n : sizes )
    {
        std::string t = f( n );
        vf::nontrivial( vf::hashStr( t ) );
        Buffer b( t );
        auto d = std::make_unique<StructuredData>();
        Status s = Status::kOk;
        Measure m = measure( [ & ] { s = d->Parse( b.a ).status; } );
        m.size = double( t.size() );
        parsing.push_back( m );
        const int depth = nesting( t );
        stackOf( name, "parsing", m, depth );
        vf::event( s == Status::kOk ? "texts accepted" : "texts refused" );
        vf::event( "bytes parsed", t.size() );
        vf::event( "blocks counted", uint64_t( m.work ) );
        if ( d->GetRootJsonValue() )
        {
            uint64_t found = 0;
            m = measure( [ & ] { lookAll( d->GetRootJsonValue(), found ); } );
            m.size = double( t.size() );
            looking.push_back( m );
            for ( int k = 0; k < 3; k++ )
            {
                // 0: no indentation, 1: two blanks, 2: many
                Status w = Status::kOk;
                m = measure( [ & ] { w = d->Write( outPath.c_str(), k == 0 ? 0 : k == 1 ? 2 : 16 ); } );
                if ( w != Status::kOk ) { ok = false; continue; }
                struct stat st;
                if ( stat( outPath.c_str(), &st ) != 0 ) vf::harnessError( "stat" );
                m.size = double( st.st_size );
                writing[ k ].push_back( m );
                stackOf( name, "writing", m, depth );
            }
        }
        if ( t.size() <= 65534 )
        {
            vf::writeAll( inPath, t );
            StructuredData e;
            m = measure( [ & ] { e.Parse( inPath.c_str() ); } );
            m.size = double( t.size() );
            reading.push_back( m );
            stackOf( name, "parsing the file", m, depth );
        }
        m = measure( [ & ] { d.reset(); } );
        m.size = double( t.size() );
        destroying.push_back( m );
        stackOf( name, "destroying", m, depth );
    }
    judge( name, "parsing", parsing );
    judge( name, "looking up all names", looking );
    if ( ok ) for ( auto& w : writing ) judge( name, "writing", w );
    judge( name, "parsing the file", reading );
    judge( name, "destroying", destroying );
    vf::event( "families" );
    vf::sample( name );
    (void)r;
}

static std::string rep( const std::string& s, int n ) { std::string o; o.reserve( s.size() * size_t( n ) ); for ( int i = 0; i < n; i++ ) o += s; return o; }
static std::string list( const std::string& s, int n ) { return n ? rep( s + ",", n - 1 ) + s : ""; }

struct Named { const char* name; Family f; };

static std::string names( int n, const std::function<std::string( int )>& name, const std::string& value )
{
    std::string o = "{";
    for ( int i = 0; i < n; i++ ) { if ( i ) o += ','; o += '"'; o += name( i ); o += "\":"; o += value; }
    return o + "}";
}

static std::string six( int i ) { char b[ 16 ]; snprintf( b, sizeof b, "%06d", i ); return b; }

static std::vector<Named> fixed()
{
    std::vector<Named> v;
    auto add = [ & ]( const char* n, Family f ) { v.push_back( { n, std::move( f ) } ); };
    for ( const char* e : { "1", "-0.5e-3", "null", "true", "\"\"", "\"abc\"", "\"a text that does not fit into a string's own buffer\"", "[]", "{}", "[[]]", "{\"a\":1}", "[1,2]", "{\"a\":{\"b\":[]}}", " 1 ", "\"\\u00e9\\n\"" } )
        v.push_back( { e, [ e = std::string( e ) ]( int n ) { return "[" + list( e, n ) + "]"; } } );
    add( "object, rising names", []( int n ) { return names( n, six, "1" ); } );
    add( "object, falling names", []( int n ) { return names( n, [ n ]( int i ) { return six( n - i ); }, "1" ); } );
    add( "object, scattered names", []( int n ) { return names( n, []( int i ) { return six( int( uint32_t( i ) * 2654435761u % 1000003u ) ); }, "[]" ); } );
    add( "object, names from both ends", [](int n ) { return names( n, [ n ]( int i ) { return six( i % 2 ? i : 2 * n - i ); }, "1" ); } );
    add( "object, zigzag names", []( int n ) { return names( n, [ n ]( int i ) { return six( n + ( i % 2 ? i : -i ) ); }, "1" ); } );
    add( "object, one repeated name", []( int n ) { return names( n, []( int ) { return std::string( "a" ); }, "1" ); } );
    add( "object, one repeated name with large values", []( int n ) { return names( n, []( int ) { return std::string( "a" ); }, "[1,\"text\",{}]" ); } );
    add( "object, ten repeated names", []( int n ) { return names( n, []( int i ) { return "a" + std::to_string( i % 10 ); }, "1" ); } );
    add( "object, many names each twice", []( int n ) { return names( n, [ n ]( int i ) { return six( i % ( n / 2 + 1 ) ); }, "1" ); } );
    add( "object, common long prefix", []( int n ) { return names( n, []( int i ) { return std::string( 40, 'p' ) + six( i ); }, "1" ); } );
    add( "object, escaped names", []( int n ) { return names( n, []( int i ) { return "\\u00e9\\n" + six( i ); }, "1" ); } );
    add( "object of objects", []( int n ) { return names( n, six, "{\"x\":{\"y\":1}}" ); } );
    add( "one name, long", []( int n ) { return "{\"" + std::string( size_t( n ), 'n' ) + "\":1}"; } );
    add( "many objects of ten names", []( int n ) { return "[" + list( names( 10, six, "0" ), n / 10 + 1 ) + "]"; } );
    add( "string", []( int n ) { return "\"" + std::string( size_t( n ), 's' ) + "\""; } );
    add( "string of short escapes", []( int n ) { return "\"" + rep( "\\n", n ) + "\""; } );
    add( "string of quotes", []( int n ) { return "\"" + rep( "\\\"", n ) + "\""; } );
    add( "string of \\u escapes", []( int n ) { return "\"" + rep( "\\u00e9", n ) + "\""; } );
    add( "string of pairs", []( int n ) { return "\"" + rep( "\\ud83d\\ude00", n ) + "\""; } );
    add( "string of two-byte characters", []( int n ) { return "\"" + rep( "\xc3\xa9", n ) + "\""; } );
    add( "string of four-byte characters", []( int n ) { return "\"" + rep( "\xf0\x9f\x98\x80", n ) + "\""; } );
    add( "string of control escapes", []( int n ) { return "\"" + rep( "\\u0001", n ) + "\""; } );
    add( "digits", []( int n ) { return std::string( size_t( n ), '7' ); } );
    add( "fraction", []( int n ) { return "0." + std::string( size_t( n ), '3' ); } );
    add( "small fraction", []( int n ) { return "0." + std::string( size_t( n ), '0' ) + "1"; } );
    add( "exponent of zeros", []( int n ) { return "1e" + std::string( size_t( n ), '0' ) + "1"; } );
    add( "array of long numbers", []( int n ) { return "[" + list( std::string( 60, '7' ), n / 60 + 1 ) + "]"; } );
    add( "blanks before", []( int n ) { return std::string( size_t( n ), ' ' ) + "1"; } );
    add( "blanks behind", []( int n ) { return "1" + std::string( size_t( n ), ' ' ); } );
    add( "lines before", []( int n ) { return rep( "\n", n ) + "1"; } );
    add( "blanks inside", []( int n ) { return "[" + std::string( size_t( n ), '\t' ) + "1" + std::string( size_t( n ), '\r' ) + ",2]"; } );
    add( "blanks around each value", []( int n ) { return "[" + list( "   \n 1 \n  ", n ) + "]"; } );
    add( "depth", []( int n ) { int d = n < 512 ? n : 512; return rep( "[", d ) + rep( "]", d ); } );
    add( "depth, objects", []( int n ) { int d = n < 512 ? n : 512; return rep( "{\"a\":", d ) + "1" + rep( "}", d ); } );
    add( "depth, both", []( int n ) { int d = n < 256 ? n : 256; return rep( "[{\"a\":", d ) + "1" + rep( "}]", d ); } );
    add( "too deep", []( int n ) { return rep( "[", n ); } );
    add( "too deep, objects", []( int n ) { return rep( "{\"a\":", n ); } );
    add( "many deep values", []( int n ) { return "[" + list( rep( "[", 100 ) + rep( "]", 100 ), n / 100 + 1 ) + "]"; } );
    add( "many deep objects", []( int n ) { return "[" + list( rep( "{\"k\":", 80 ) + "1" + rep( "}", 80 ), n / 100 + 1 ) + "]"; } );
    add( "wide at every depth", []( int n ) { std::string o; int d = 100; for ( int i = 0; i < d; i++ ) o += "[" + list( "1", n / d + 1 ) + ","; o += "0"; return o + rep( "]", d ); } );
    add( "wide objects at every depth", []( int n ) { std::string o; int d = 60; for ( int i = 0; i < d; i++ ) { o += "{"; for ( int k = 0; k < n / d + 1; k++ ) o += "\"" + six( k ) + "\":0,"; o += "\"z\":"; } o += "0"; return o + rep( "}", d ); } );
    // refused at the end
    add( "bad end", []( int n ) { return "[" + list( "1", n ) + ",]"; } );
    add( "bad end, many lines", []( int n ) { return "[\n" + list( "1\n", n ) + "x"; } );
    add( "bad end, objects", []( int n ) { return names( n, six, "1" ) + "}"; } );
    add( "no end, array", []( int n ) { return "[" + list( "\"a\"", n ); } );
    add( "no end, string", []( int n ) { return "\"" + std::string( size_t( n ), 's' ); } );
    add( "no end, many lines in front of a string", []( int n ) { return rep( "\n", n ) + "\"" + std::string( size_t( n ), 's' ); } );
    add( "bad escape at the end", []( int n ) { return "\"" + std::string( size_t( n ), 's' ) + "\\q\""; } );
    add( "bad byte at the end", []( int n ) { return "\"" + std::string( size_t( n ), 's' ) + "\xff\""; } );
    add( "no colon at the end", []( int n ) { std::string s = names( n, six, "1" ); s.pop_back(); return s + ",\"x\" 1}"; } );
    add( "many repeated names, then bad", []( int n ) { std::string s = names( n, []( int ) { return std::string( "a" ); }, "[[]]" ); s.pop_back(); return s + ",\"b\":}"; } );
    add( "leading zero behind many", []( int n ) { return "[" + list( "1", n ) + ",01]"; } );
    add( "commas", []( int n ) { return "[" + rep( ",", n ) + "]"; } );
    add( "colons", []( int n ) { return "{" + rep( ":", n ) + "}"; } );
    add( "quotes", []( int n ) { return rep( "\"", n ); } );
    add( "backslashes", []( int n ) { return "\"" + rep( "\\", n ) + "\""; } );
    add( "minus signs", []( int n ) { return rep( "-", n ); } );
    add( "zeros", []( int n ) { return rep( "0", n ); } );
    add( "closing brackets", []( int n ) { return rep( "]", n ); } );
    add( "nothing but blanks", []( int n ) { return rep( " \n", n ); } );
    return v;
}

static std::vector<Named> fixedFamilies;

// A random text around a random part that is repeated.
static void randomFamily( uint64_t i, Rng& r )
{
    gen::Opt o;
    o.budget = r.range( 3, 12 );
    o.maxDepth = 5;
    std::string unit = gen::document( r, o );
    if ( i % 3 == 2 ) unit = gen::mutate( r, unit );
    std::string pre = r.chance( 1, 2 ) ? gen::document( r, o ) + "," : "", post = r.chance( 1, 3 ) ? "," + gen::document( r, o ) : "";
    bool object = r.chance( 1, 3 );
    int order = int( r.below( 4 ) ), deep = r.range( 0, 40 );
    uint32_t mul = uint32_t( r.next() ) | 1;
    std::string end = r.chance( 1, 4 ) ? gen::bytes( r, 3 ) : "";
    int n0 = std::max( 30, int( 6000 / ( unit.size() + 10 ) ) );
    std::vector<int> sizes = { n0, n0 * 5, n0 * 25 };
    family( ( object ? "object of " : "array of " ) + vf::shown( unit, 100 ), sizes, [ & ]( int n ) {
        std::string t = rep( "[", deep );
        if ( object ) t += names( n, [ & ]( int k ) { return order == 0 ? six( k ) : order == 1 ? six( n - k ) : order == 2 ? std::to_string( uint32_t( k ) * mul ) : "n" + std::to_string( k % 7 ); }, unit );
        else t += "[" + pre + list( unit, n ) + post + "]";
        return t + rep( "]", deep ) + end;
    }, r );
}

// Typed conversion of large containers.
template <class T> static void convert( const char* name, Rng& r, const std::function<void( T&, int )>& fill )
{
    std::vector<Measure> ser, des, val;
    for ( int n : { 2000, 8000, 32000 } )
    {
        T a;
        fill( a, n );
        StructuredData d;
        Status s = Status::kOk;
        Measure m = measure( [ & ] { s = d.SerializeFrom( a ); } );
        if ( s != Status::kOk ) vf::fail( std::string( name ) + " cannot be serialized" );
        if ( d.Write( outPath.c_str(), 0 ) != Status::kOk ) vf::fail( std::string( name ) + " cannot be written" );
        struct stat st;
        stat( outPath.c_str(), &st );
        m.size = double( st.st_size );
        ser.push_back( m );
        stackOf( name, "serializing", m, 4 );
        T b;
        m = measure( [ & ] { s = d.DeserializeTo( b ); } );
        m.size = double( st.st_size );
        if ( s != Status::kOk ) vf::fail( std::string( name ) + " cannot be deserialized" );
        des.push_back( m );
        stackOf( name, "deserializing", m, 4 );
        const T c {};
        m = measure( [ & ] { s = Validate( d, c ); } );
        m.size = double( st.st_size );
        val.push_back( m );
        stackOf( name, "validating", m, 4 );
    }
    judge( name, "serializing", ser );
    judge( name, "deserializing", des );
    judge( name, "validating", val );
    vf::event( "containers converted" );
    (void)r;
}

// Values given to one object name by name, and read again.
template <class T> static void oneByOne( const char* name, const T& value, const std::function<std::string( int, int )>& key )
{
    std::vector<Measure> ser, des, val;
    for ( int n : { 1000, 4000, 16000 } )
    {
        StructuredData d;
        ObjectMap<Null> none;
        d.SerializeFrom( none );
        Value* root = d.GetRootJsonValue();
        std::vector<std::string> keys;
        double size = 0;
        for ( int k = 0; k < n; k++ ) { keys.push_back( key( k, n ) ); size += double( keys.back().size() ) + 6; }
        bool ok = true;
        Measure m = measure( [ & ] { for ( auto& k : keys ) ok = ok && SerializeProto( root, k.c_str(), value ) == Status::kOk; } );
        m.size = size;
        ser.push_back( m );
        T t {};
        m = measure( [ & ] { for ( auto& k : keys ) ok = ok && DeserializeProto( root, k.c_str(), t ) == Status::kOk; } );
        m.size = size;
        des.push_back( m );
        m = measure( [ & ] { for ( auto& k : keys ) ok = ok && ValidateProto( root, k.c_str(), value ) == Status::kOk; } );
        m.size = size;
        val.push_back( m );
        if ( !ok ) vf::fail( std::string( name ) + ": names given one by one fail" );
    }
    judge( name, "serializing one by one", ser );
    judge( name, "deserializing one by one", des );
    judge( name, "validating one by one", val );
    vf::event( "objects made name by name" );
}

static void containers( uint64_t i, Rng& r )
{
    switch ( i )
    {
        case 0: convert<Array<double>>( "Array<double>", r, []( auto& a, int n ) { for ( int k = 0; k < n; k++ ) a.AppendArrayElement( k ); } ); break;
        case 1: convert<Array<String<>>>( "Array<String>", r, []( auto& a, int n ) { for ( int k = 0; k < n; k++ ) a.AppendArrayElement( String<>( "some text" ) ); } ); break;
        case 2: convert<std::vector<double>>( "vector<double>", r, []( auto& a, int n ) { a.resize( size_t( n ), 0.5 ); } ); break;
        case 3: convert<std::vector<std::string>>( "vector<string>", r, []( auto& a, int n ) { a.resize( size_t( n ), "text" ); } ); break;
        case 4: convert<std::map<std::string, double>>( "map<string, double>", r, []( auto& a, int n ) { for ( int k = 0; k < n; k++ ) a[ six( k ) ] = k; } ); break;
        case 5: convert<std::vector<std::vector<double>>>( "vector<vector<double>>", r, []( auto& a, int n ) { a.resize( size_t( n / 4 ), std::vector<double>( 4, 1.5 ) ); } ); break;
        case 6: convert<String<>>( "String", r, []( auto& a, int n ) { std::string s( size_t( n * 4 ), 'x' ); a = s.c_str(); } ); break;
        case 7: convert<std::string>( "string", r, []( auto& a, int n ) { a.assign( size_t( n * 4 ), '"' ); } ); break;
        case 9: convert<ObjectMap<double>>( "ObjectMap<double>", r, []( auto& a, int n ) { for ( int k = 0; k < n; k++ ) { auto* e = new ObjectMapElement<double>; e->name = six( k ).c_str(); e->data = k; a.InsertMapElement( e ); } } ); break;
        case 10: oneByOne<double>( "numbers under rising names", 1, []( int k, int ) { return six( k ); } ); break;
        case 11: oneByOne<double>( "numbers under falling names", 1, []( int k, int n ) { return six( n - k ); } ); break;
        case 12: oneByOne<String<>>( "texts under scattered names", String<>( "abc" ), []( int k, int ) { return six( int( uint32_t( k ) * 2654435761u % 1000003u ) ); } ); break;
        case 13: oneByOne<double>( "numbers under names each given twice", 1, []( int k, int n ) { return six( k % ( n / 2 ) ); } ); break;
        case 14: oneByOne<Array<double>>( "arrays under one name", Array<double> {}, []( int, int ) { return std::string( "again" ); } ); break;
        case 8: convert<std::vector<bool>>( "vector<bool>", r, []( auto& a, int n ) { a.resize( size_t( n ), true ); } ); break;
    }
}

static void all()
{
    outPath = vf::st.dir + "/out." + std::to_string( vf::st.shard );
    inPath = vf::st.dir + "/in." + std::to_string( vf::st.shard );
    fixedFamilies = fixed();
    vf::stream( "huge", 5, []( uint64_t i, Rng& r ) {
        const char* const which[] = { "string", "digits", "fraction", "one name, long", "blanks before" };
        for ( auto& f : fixedFamilies ) if ( f.name == std::string( which[ i ] ) ) family( f.name, { 200000, 1600000 }, f.f, r );
    }, 300 );
    vf::stream( "families", fixedFamilies.size(), []( uint64_t i, Rng& r ) { family( fixedFamilies[ i ].name, { 400, 2000, 10000, 50000 }, fixedFamilies[ i ].f, r ); }, 300 );
    vf::stream( "containers", 15, containers, 300 );
    vf::stream( "random", vf::scaled( 400 ), randomFamily, 300 );
    vf::event( "worst growth in percent of the length's (sum over shards)", uint64_t( worst * 100 ) );
    vf::event( "deepest stack (sum over shards)", uint64_t( deepestStack ) );
    if ( !vf::st.replay.empty() ) fprintf( stderr, "worst growth %.2f\n", worst );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
