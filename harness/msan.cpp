// C01: MemorySanitizer monitor. Only libc and the library run here, so that every report is about the library.
#include "C4Json.h"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>

#ifdef __has_feature
#    if __has_feature( memory_sanitizer )
#        include <sanitizer/msan_interface.h>
#        define VF_MSAN 1
#    endif
#endif

using namespace C4::Json;
using Terathon::Array;
using Terathon::String;

static unsigned long long values, texts, accepted, bytesChecked;
static char               currentPath[ 512 ], outPath[ 512 ];

static void checked( const void* p, size_t n )
{
#ifdef VF_MSAN
    __msan_check_mem_is_initialized( p, n );
#else
    // under Valgrind: branch on every byte
    volatile unsigned acc = 0;
    for ( size_t i = 0; i < n; i++ ) if ( static_cast<const char*>( p )[ i ] == 17 ) acc = acc + 1;
#endif
    bytesChecked += n;
}

static void text( const String<>& s )
{
    int n = s.GetStringLength();
    checked( &n, sizeof n );
    checked( static_cast<const char*>( s ), size_t( n ) + 1 );
}

static void walk( const Value* v )
{
    values++;
    text( v->name );
    if ( auto* s = v->GetDataAsPointerTo<String<>>() ) text( *s );
    else if ( auto* d = v->GetDataAsPointerTo<double>() ) checked( d, sizeof *d );
    else if ( auto* b = v->GetDataAsPointerTo<bool>() ) checked( b, 1 );
    else if ( v->GetDataAsPointerTo<Null>() ) {}
    else if ( auto* a = v->GetDataAsPointerTo<Array<Value*>>() )
    {
        int n = a->GetArrayElementCount();
        checked( &n, sizeof n );
        for ( const Value* e : *a ) { checked( &e, sizeof e ); walk( e ); }
    }
    else if ( auto* o = v->AsJsonObjectValue() )
    {
        for ( const Value* e : *o )
        {
            walk( e );
            const char* q = e->name;
            o->FindString( q ); o->FindNumber( q ); o->FindBool( q ); o->FindJsonNull( q ); o->FindJsonValueArray( q ); o->FindJsonObjectValue( q );
        }
    }
}

struct Thing
{
    String<> s;
    double   d = 0;
    bool     b = false;
    Null     n;
    Array<double> list;
    ObjectMap<String<>> map;
};
#define THING_PROTO "a", object.s, optional, "b", object.d, optional, "c", object.b, optional, "n", object.n, optional, "list", object.list, optional, "map", object.map
DEFINE_JSON4C4_FUNCTIONS( Thing, THING_PROTO )

static void useThing( StructuredData& d )
{
    Thing t;
    Status v = Validate( d, t ), s = d.DeserializeTo( t );
    checked( &v, sizeof v );
    checked( &s, sizeof s );
    text( t.s );
    checked( &t.d, sizeof t.d );
    checked( &t.b, 1 );
    StructuredData e;
    if ( e.SerializeFrom( t ) == Status::kOk ) walk( e.GetRootJsonValue() );
    Array<String<>> words;
    Status w = d.DeserializeTo( words );
    checked( &w, sizeof w );
    for ( const String<>& x : words ) text( x );
}

static void fileBytes()
{
    int fd = open( outPath, O_RDONLY );
    if ( fd < 0 ) return;
    static char b[ 65536 ];
    ssize_t n;
    while ( ( n = read( fd, b, sizeof b ) ) > 0 ) {}
    close( fd );
}

static void one( const unsigned char* p, uint32_t n, unsigned long long k )
{
    texts++;
    Array<char> buf( int( n + 1 ) ); // exactly that much room
    buf.SetArrayElementCount( int( n + 1 ), char( 0 ) );
    if ( n ) memcpy( buf.begin(), p, n );
    StructuredData d;
    ParseResult r = d.Parse( buf );
    checked( &r.status, sizeof r.status );
    checked( &r.errorLine, sizeof r.errorLine );
    checked( &r.errorColumn, sizeof r.errorColumn );
    String<256> m = ParseResultToString( r );
    checked( static_cast<const char*>( m ), strlen( m ) + 1 );
    if ( r.status == Status::kOk ) accepted++;
    if ( d.GetRootJsonValue() ) walk( d.GetRootJsonValue() );
    useThing( d );
    if ( k % 4 == 0 )
    {
        // every byte given to write() is checked by the sanitizer
        Status w = d.Write( outPath, unsigned( k / 4 % 4 ), k % 8 ? ' ' : '\t' );
        checked( &w, sizeof w );
        StructuredData e;
        ParseResult q = e.Parse( outPath );
        checked( &q.status, sizeof q.status );
        if ( e.GetRootJsonValue() ) walk( e.GetRootJsonValue() );
        fileBytes();
    }
    if ( k % 16 == 1 )
    {
        // the document parses something else
        ParseResult q = d.Parse( buf );
        checked( &q.status, sizeof q.status );
        if ( d.GetRootJsonValue() ) walk( d.GetRootJsonValue() );
    }
}

static void onAlarm( int ) { _exit( 99 ); }

// msan --prop= --dir= --shard= ... : reads <dir>/pack.<shard>
int main( int argc, char** argv )
{
    const char *dir = ".", *shard = "0", *replay = nullptr;
    long        limit = -1;
    for ( int i = 1; i < argc; i++ )
    {
        if ( !strncmp( argv[ i ], "--dir=", 6 ) ) dir = argv[ i ] + 6;
        else if ( !strncmp( argv[ i ], "--shard=", 8 ) ) shard = argv[ i ] + 8;
        else if ( !strncmp( argv[ i ], "--mode=", 7 ) ) limit = atol( argv[ i ] + 7 );
        else if ( !strncmp( argv[ i ], "--replay=", 9 ) ) replay = argv[ i ] + 9;
    }
    snprintf( currentPath, sizeof currentPath, "%s/current.%s", dir, shard );
    snprintf( outPath, sizeof outPath, "%s/msanout.%s", dir, shard );
    signal( SIGPROF, onAlarm );
    int cur = open( currentPath, O_RDWR | O_CREAT | O_TRUNC, 0644 );
    char path[ 512 ];
    static unsigned char buf[ 1 << 20 ];
    if ( replay )
    {
        // a case is its text in hexadecimal
        uint32_t n = 0;
        const char* h = strchr( replay, ' ' );
        unsigned long long k = strtoull( replay, nullptr, 10 );
        if ( h )
            for ( h++; h[ 0 ] && h[ 1 ]; h += 2 ) { unsigned x; sscanf( h, "%2x", &x ); buf[ n++ ] = (unsigned char)x; }
        one( buf, n, k );
    }
    else
    {
        snprintf( path, sizeof path, "%s/pack.%s", dir, shard );
        FILE* f = fopen( path, "rb" );
        if ( !f ) { fprintf( stderr, "HARNESS: no %s\n", path ); return 3; }
        uint32_t n;
        static char line[ 2 * 20000 + 100 ];
        for ( unsigned long long k = 0; fread( &n, 4, 1, f ) == 1; k++ )
        {
            if ( n > 20000 || fread( buf, 1, n, f ) != n ) { fprintf( stderr, "HARNESS: bad pack\n" ); return 3; }
            if ( limit >= 0 && k % ( (unsigned long long)limit + 1 ) != 0 ) continue;
            int o = 8 + sprintf( line + 8, "%llu ", k );
            for ( uint32_t i = 0; i < n; i++ ) { line[ o++ ] = "0123456789abcdef"[ buf[ i ] >> 4 ]; line[ o++ ] = "0123456789abcdef"[ buf[ i ] & 15 ]; }
            uint64_t len = uint64_t( o - 8 );
            memcpy( line, &len, 8 );
            if ( pwrite( cur, line, size_t( o ), 0 ) < 0 ) return 3;
            if ( k % 64 == 0 ) { itimerval t {}; t.it_value.tv_sec = 120; setitimer( ITIMER_PROF, &t, nullptr ); }
            one( buf, n, k );
        }
        fclose( f );
    }
    snprintf( path, sizeof path, "%s/result.%s.json", dir, shard );
    FILE* f = fopen( path, "w" );
    if ( !f ) return 3;
    fprintf( f, "{\"evaluations\":%llu,\"distinct\":0,\"events\":{\"uninit: texts\":%llu,\"uninit: accepted\":%llu,\"uninit: values walked\":%llu,\"uninit: bytes checked\":%llu},\"samples\":[],\"violation\":null,\"replay\":\"\"}\n", texts, texts, accepted, values, bytesChecked );
    fclose( f );
    return 0;
}
