// C11: faults of the file system, injected at every call the library makes, and real ones.
#include "lib.h"
#include "gen.h"

#include <cerrno>
#include <cstdarg>
#include <sys/resource.h>
#include <sys/uio.h>

using namespace lib;
using vf::Rng;

// --- the system calls of the library -----------------------------------------------------------------------------------

enum Fault { fNone, fError, fInterrupt, fAgain, fNoSpace, fZero, fOne, fHalf, fErrorAfterHalf, fLose, fFaults };
static const char* const faultName[] = { "nothing", "EIO", "EINTR", "EAGAIN", "ENOSPC", "returns 0", "one byte", "half", "EIO after half", "data lost" };

struct Plan
{
    bool                       armed = false;
    std::map<uint64_t, Fault>  at;           // call number -> fault
    Fault                      all = fNone;  // every read or write
    uint64_t                   from = ~0ull; // every call from this one on ...
    Fault                      then = fNone; // ... has this fault
    long long                  room = -1;    // bytes that can be transferred before it fails
    std::function<void()>      afterStat, afterOpen, beforeRead;
    std::string                path;
    int passing = 0;
    // observed
    uint64_t calls = 0, injected = 0, reads = 0, writes = 0, opens = 0, closes = 0, stats = 0, limit = 2000000;
    long long moved = 0;
    int live = 0, stray = 0;
    std::string log;
};
static Plan plan;

static void note( const char* what, Fault f )
{
    if ( plan.log.size() < 600 && f != fNone ) plan.log += std::string( plan.log.empty() ? "" : ", " ) + "call " + std::to_string( plan.calls - 1 ) + " (" + what + "): " + faultName[ f ];
}

static Fault next( const char* what, bool transfer )
{
    uint64_t k = plan.calls++;
    if ( plan.calls > plan.limit ) vf::fail( "the call does not end: " + std::to_string( plan.calls ) + " system calls; " + plan.log );
    Fault f = fNone;
    auto i = plan.at.find( k );
    if ( i != plan.at.end() ) f = i->second;
    else if ( k >= plan.from && ( ( plan.then != fInterrupt && plan.then != fAgain ) || plan.passing++ < 6 ) ) f = plan.then; // an interrupted call may be tried again
    else if ( transfer ) f = plan.all;
    if ( f != fNone ) { plan.injected++; note( what, f ); }
    return f;
}

template <class Do>
static ssize_t transfer( const char* what, size_t n, Do&& run )
{
    Fault f = next( what, true );
    if ( plan.room >= 0 && f == fNone )
    {
        long long left = plan.room - plan.moved;
        if ( left <= 0 && n > 0 ) { plan.injected++; errno = plan.writes ? ENOSPC : EIO; return -1; }
        if ( (long long)n > left ) n = size_t( left );
    }
    switch ( f )
    {
        case fError: errno = EIO; return -1;
        case fInterrupt: errno = EINTR; return -1;
        case fAgain: errno = EAGAIN; return -1;
        case fNoSpace: errno = ENOSPC; return -1;
        case fZero: return 0;
        case fOne: if ( n > 1 ) n = 1; break;
        case fHalf: if ( n > 1 ) n = n / 2; break;
        case fErrorAfterHalf: if ( n > 1 ) { n = n / 2; plan.at[ plan.calls ] = fError; break; } errno = EIO; return -1;
        default: break;
    }
    ssize_t r = run( n );
    if ( r > 0 ) plan.moved += r;
    return r;
}

static bool setErrno( Fault f )
{
    if ( f == fNone || f == fZero || f == fOne || f == fHalf || f == fErrorAfterHalf || f == fLose ) return false;
    errno = f == fInterrupt ? EINTR : f == fNoSpace ? ENOSPC : f == fAgain ? EAGAIN : EIO;
    return true;
}

extern "C"
{
    int __real_open( const char*, int, ... );
    int __real_open64( const char*, int, ... );
    int __real_openat( int, const char*, int, ... );
    int __real_creat( const char*, mode_t );
    ssize_t __real_read( int, void*, size_t );
    ssize_t __real_pread( int, void*, size_t, off_t );
    ssize_t __real_pread64( int, void*, size_t, off64_t );
    ssize_t __real_readv( int, const iovec*, int );
    ssize_t __real_write( int, const void*, size_t );
    ssize_t __real_pwrite( int, const void*, size_t, off_t );
    ssize_t __real_pwrite64( int, const void*, size_t, off64_t );
    ssize_t __real_writev( int, const iovec*, int );
    int __real_close( int );
    int __real_fstat( int, struct stat* );
    int __real_fstat64( int, struct stat64* );
    int __real_stat( const char*, struct stat* );
    int __real_stat64( const char*, struct stat64* );
    off_t __real_lseek( int, off_t, int );
    off64_t __real_lseek64( int, off64_t, int );
    int __real_ftruncate( int, off_t );
    FILE* __real_fopen( const char*, const char* );
    FILE* __real_fopen64( const char*, const char* );
    size_t __real_fread( void*, size_t, size_t, FILE* );
    size_t __real_fwrite( const void*, size_t, size_t, FILE* );
    int __real_fclose( FILE* );

    static int opened( int fd )
    {
        if ( fd >= 0 ) { plan.live++; if ( plan.afterOpen ) { auto f = plan.afterOpen; plan.afterOpen = nullptr; plan.armed = false; f(); plan.armed = true; } }
        return fd;
    }
#define OPEN( NAME, REAL, ... )                                                                                                                                  \
    int NAME                                                                                                                                                     \
    {                                                                                                                                                            \
        mode_t mode = 0;                                                                                                                                         \
        va_list ap;                                                                                                                                              \
        va_start( ap, flags );                                                                                                                                   \
        if ( flags & O_CREAT ) mode = mode_t( va_arg( ap, int ) );                                                                                               \
        va_end( ap );                                                                                                                                            \
        if ( !plan.armed ) return REAL( __VA_ARGS__, flags, mode );                                                                                              \
        plan.opens++;                                                                                                                                            \
        if ( setErrno( next( "open", false ) ) ) return -1;                                                                                                      \
        return opened( REAL( __VA_ARGS__, flags, mode ) );                                                                                                       \
    }
    OPEN( __wrap_open( const char* path, int flags, ... ), __real_open, path )
    OPEN( __wrap_open64( const char* path, int flags, ... ), __real_open64, path )
    OPEN( __wrap_openat( int at, const char* path, int flags, ... ), __real_openat, at, path )
    int __wrap_creat( const char* path, mode_t mode )
    {
        if ( !plan.armed ) return __real_creat( path, mode );
        plan.opens++;
        if ( setErrno( next( "creat", false ) ) ) return -1;
        return opened( __real_creat( path, mode ) );
    }

    static void beforeRead()
    {
        plan.reads++;
        if ( plan.beforeRead ) { auto f = plan.beforeRead; plan.beforeRead = nullptr; plan.armed = false; f(); plan.armed = true; }
    }
    ssize_t __wrap_read( int fd, void* p, size_t n )
    {
        if ( !plan.armed ) return __real_read( fd, p, n );
        beforeRead();
        return transfer( "read", n, [ & ]( size_t m ) { return __real_read( fd, p, m ); } );
    }
    ssize_t __wrap_pread( int fd, void* p, size_t n, off_t o )
    {
        if ( !plan.armed ) return __real_pread( fd, p, n, o );
        beforeRead();
        return transfer( "pread", n, [ & ]( size_t m ) { return __real_pread( fd, p, m, o ); } );
    }
    ssize_t __wrap_pread64( int fd, void* p, size_t n, off64_t o )
    {
        if ( !plan.armed ) return __real_pread64( fd, p, n, o );
        beforeRead();
        return transfer( "pread", n, [ & ]( size_t m ) { return __real_pread64( fd, p, m, o ); } );
    }
    static ssize_t part( const iovec* v, int c, size_t m, const std::function<ssize_t( const iovec*, int )>& run )
    {
        std::vector<iovec> w;
        for ( int i = 0; i < c && m > 0; i++ ) { iovec x = v[ i ]; if ( x.iov_len > m ) x.iov_len = m; m -= x.iov_len; w.push_back( x ); }
        return run( w.data(), int( w.size() ) );
    }
    static size_t total( const iovec* v, int c ) { size_t n = 0; for ( int i = 0; i < c; i++ ) n += v[ i ].iov_len; return n; }
    ssize_t __wrap_readv( int fd, const iovec* v, int c )
    {
        if ( !plan.armed ) return __real_readv( fd, v, c );
        beforeRead();
        return transfer( "readv", total( v, c ), [ & ]( size_t m ) { return part( v, c, m, [ & ]( const iovec* w, int k ) { return __real_readv( fd, w, k ); } ); } );
    }
    ssize_t __wrap_write( int fd, const void* p, size_t n )
    {
        if ( !plan.armed ) return __real_write( fd, p, n );
        plan.writes++;
        return transfer( "write", n, [ & ]( size_t m ) { return __real_write( fd, p, m ); } );
    }
    ssize_t __wrap_pwrite( int fd, const void* p, size_t n, off_t o )
    {
        if ( !plan.armed ) return __real_pwrite( fd, p, n, o );
        plan.writes++;
        return transfer( "pwrite", n, [ & ]( size_t m ) { return __real_pwrite( fd, p, m, o ); } );
    }
    ssize_t __wrap_pwrite64( int fd, const void* p, size_t n, off64_t o )
    {
        if ( !plan.armed ) return __real_pwrite64( fd, p, n, o );
        plan.writes++;
        return transfer( "pwrite", n, [ & ]( size_t m ) { return __real_pwrite64( fd, p, m, o ); } );
    }
    ssize_t __wrap_writev( int fd, const iovec* v, int c )
    {
        if ( !plan.armed ) return __real_writev( fd, v, c );
        plan.writes++;
        return transfer( "writev", total( v, c ), [ & ]( size_t m ) { return part( v, c, m, [ & ]( const iovec* w, int k ) { return __real_writev( fd, w, k ); } ); } );
    }
    int __wrap_close( int fd )
    {
        if ( !plan.armed ) return __real_close( fd );
        plan.closes++;
        Fault f = next( "close", false );
        // the descriptor is closed even when close reports an error
        if ( f == fLose )
        {
            struct stat s;
            if ( __real_fstat( fd, &s ) == 0 && s.st_size > 0 && __real_ftruncate( fd, s.st_size / 2 ) == 0 ) {}
        }
        int r = __real_close( fd );
        if ( r == 0 ) plan.live--;
        else if ( plan.injected == 0 && fd >= 0 && errno == EBADF ) plan.stray++;
        if ( f == fLose ) { errno = EIO; return -1; }
        return setErrno( f ) ? -1 : r;
    }
    static void afterStat()
    {
        plan.stats++;
        if ( plan.afterStat ) { auto f = plan.afterStat; plan.afterStat = nullptr; plan.armed = false; f(); plan.armed = true; }
    }
#define STAT( NAME, REAL, A, TYPE )                                                                                                                              \
    int NAME( A a, TYPE* s )                                                                                                                                     \
    {                                                                                                                                                            \
        if ( !plan.armed ) return REAL( a, s );                                                                                                                  \
        if ( setErrno( next( "stat", false ) ) ) return -1;                                                                                                      \
        int r = REAL( a, s );                                                                                                                                    \
        afterStat();                                                                                                                                             \
        return r;                                                                                                                                                \
    }
    STAT( __wrap_fstat, __real_fstat, int, struct stat )
    STAT( __wrap_fstat64, __real_fstat64, int, struct stat64 )
    STAT( __wrap_stat, __real_stat, const char*, struct stat )
    STAT( __wrap_stat64, __real_stat64, const char*, struct stat64 )
    off_t __wrap_lseek( int fd, off_t o, int w )
    {
        if ( !plan.armed ) return __real_lseek( fd, o, w );
        if ( setErrno( next( "lseek", false ) ) ) return -1;
        off_t r = __real_lseek( fd, o, w );
        if ( w == SEEK_END ) afterStat();
        return r;
    }
    off64_t __wrap_lseek64( int fd, off64_t o, int w )
    {
        if ( !plan.armed ) return __real_lseek64( fd, o, w );
        if ( setErrno( next( "lseek", false ) ) ) return -1;
        off64_t r = __real_lseek64( fd, o, w );
        if ( w == SEEK_END ) afterStat();
        return r;
    }
    int __wrap_ftruncate( int fd, off_t n )
    {
        if ( !plan.armed ) return __real_ftruncate( fd, n );
        if ( setErrno( next( "ftruncate", false ) ) ) return -1;
        return __real_ftruncate( fd, n );
    }
    FILE* __wrap_fopen( const char* a, const char* b ) { FILE* f = __real_fopen( a, b ); if ( plan.armed && f ) plan.live++; return f; }
    FILE* __wrap_fopen64( const char* a, const char* b ) { FILE* f = __real_fopen64( a, b ); if ( plan.armed && f ) plan.live++; return f; }
    size_t __wrap_fread( void* p, size_t a, size_t b, FILE* f ) { return __real_fread( p, a, b, f ); }
    size_t __wrap_fwrite( const void* p, size_t a, size_t b, FILE* f ) { return __real_fwrite( p, a, b, f ); }
    int __wrap_fclose( FILE* f ) { if ( plan.armed ) plan.live--; return __real_fclose( f ); }
}

// --- monitors ------------------------------------------------------------------------------------------------------------

static std::string dir, in, out;

static std::string planText() { return plan.log.empty() ? ( plan.room >= 0 ? "fails after " + std::to_string( plan.room ) + " bytes" : "no fault" ) : plan.log; }

static void afterCall( const char* what, int before )
{
    plan.armed = false;
    vf::st.evaluations++;
    vf::event( std::string( what ) + " calls" );
    vf::event( "system calls", plan.calls );
    vf::event( "faults injected", plan.injected );
    int now = openFds();
    if ( now != before ) vf::fail( std::string( what ) + " leaves " + std::to_string( now - before ) + " file descriptors open; " + planText() );
    if ( plan.stray != 0 ) vf::fail( std::string( what ) + " closes a descriptor that is not open, which may be another thread's by then" );
    if ( plan.live != 0 ) vf::fail( std::string( what ) + " closes a descriptor it did not open, or leaves one; " + planText() );
}

static void reset()
{
    Plan p;
    plan = p;
}

// contents: what the file held at the moments of the call. mustSucceed: nothing but short transfers happened.
static Status readCase( StructuredData& d, const std::string& path, const std::vector<std::string>& contents, bool mustSucceed, const std::string& what )
{
    int before = openFds();
    plan.armed = true;
    ParseResult p = d.Parse( path.c_str() );
    afterCall( "Parse", before );
    if ( p.status == Status::kOk )
    {
        if ( !d.GetRootJsonValue() ) vf::fail( "Parse succeeds without a value; " + what + "; " + planText() );
        std::string why = "the text is refused";
        bool found = false;
        for ( auto& c : contents )
        {
            ref::Result r = ref::read( c );
            if ( !r.ok || c.size() > 65534 ) continue;
            uint64_t n = 0;
            why = compare( d.GetRootJsonValue(), r.root, n, false );
            if ( why.empty() ) { found = true; break; }
        }
        if ( !found ) vf::fail( "Parse succeeds, but the document is not what the file holds (" + why + "); " + what + "; " + planText() );
        vf::event( "parsed completely" );
    }
    else
    {
        if ( mustSucceed ) vf::fail( std::string( "Parse fails with " ) + statusName( p.status ) + " though the file is whole; " + what + "; " + planText() );
        if ( p.status != Status::KFileOpenError && p.status != Status::KFileReadError && p.status != Status::KFileTooLarge ) vf::event( std::string( "other status " ) + statusName( p.status ) );
        vf::event( std::string( "Parse status " ) + statusName( p.status ) );
    }
    return p.status;
}

static Status writeCase( StructuredData& d, const std::string& path, const std::string& want, uint32 indent, char ch, bool mustSucceed, const std::string& what )
{
    int before = openFds();
    plan.armed = true;
    Status s = d.Write( path.c_str(), indent, ch );
    afterCall( "Write", before );
    if ( s == Status::kOk )
    {
        std::string got = vf::readAll( path );
        if ( got != want ) vf::fail( "Write succeeds, but the file holds " + std::to_string( got.size() ) + " bytes that are not the " + std::to_string( want.size() ) + " of the text; " + what + "; " + planText() );
        vf::event( "written completely" );
    }
    else
    {
        if ( mustSucceed ) vf::fail( std::string( "Write fails with " ) + statusName( s ) + " though everything could be written; " + what + "; " + planText() );
        vf::event( std::string( "Write status " ) + statusName( s ) );
    }
    return s;
}

static std::string clip( const std::string& s ) { return "text " + vf::shown( s, 120 ); }

// The bytes a document is written as when nothing fails.
static std::string written( StructuredData& d, uint32 indent, char ch )
{
    reset();
    unlink( out.c_str() );
    if ( d.Write( out.c_str(), indent, ch ) != Status::kOk ) vf::fail( "Write fails without a fault" );
    std::string s = vf::readAll( out );
    return s;
}

static void usable( StructuredData& d )
{
    reset();
    vf::writeAll( in, "[1,{\"a\":\"b\"}]" );
    readCase( d, in, { "[1,{\"a\":\"b\"}]" }, true, "after a fault" );
}

static std::string smallText( Rng& r )
{
    gen::Opt o;
    o.budget = r.range( 3, 10 );
    o.maxDepth = 3;
    for ( ;; )
    {
        std::string s = gen::document( r, o );
        if ( s.size() < 400 && !s.empty() ) return s;
    }
}
static std::string bigText( Rng& r )
{
    std::string s = "[";
    size_t want = r.chance( 1, 2 ) ? 60000 : 9000;
    gen::Opt o;
    while ( s.size() < want ) { std::string v = gen::document( r, o ); if ( s.size() + v.size() > 65000 ) break; if ( s.size() > 1 ) s += ','; s += v; }
    return s + "]";
}

static void enumerateReads( uint64_t, Rng& r )
{
    std::string t = smallText( r );
    vf::sample( t );
    vf::nontrivial( vf::hashStr( t, 1 ) );
    vf::writeAll( in, t );
    StructuredData d;
    reset();
    readCase( d, in, { t }, true, clip( t ) );
    uint64_t n = plan.calls;
    // every call, every fault; and all pairs of faults when reads are short
    for ( uint64_t k = 0; k < n + 2; k++ )
        for ( int f = fError; f < fFaults; f++ )
        {
            reset();
            plan.at[ k ] = Fault( f );
            readCase( d, in, { t }, false, clip( t ) );
            reset();
            plan.from = k;
            plan.then = Fault( f );
            readCase( d, in, { t }, f == fOne || f == fHalf, clip( t ) );
        }
    for ( int f : { fOne, fHalf } )
    {
        reset();
        plan.all = Fault( f );
        readCase( d, in, { t }, true, clip( t ) );
        uint64_t m = plan.calls;
        for ( uint64_t k = 0; k < m + 1; k++ )
            for ( int g = fError; g < fFaults; g++ )
            {
                reset();
                plan.all = Fault( f );
                plan.at[ k ] = Fault( g );
                readCase( d, in, { t }, g == fOne || g == fHalf, clip( t ) );
            }
    }
    // the device fails behind each byte
    for ( size_t b = 0; b <= t.size(); b++ )
    {
        reset();
        plan.room = (long long)b;
        readCase( d, in, { t }, b >= t.size(), clip( t ) );
    }
    usable( d );
}

static void enumerateWrites( uint64_t, Rng& r )
{
    std::string t = smallText( r );
    vf::sample( t );
    vf::nontrivial( vf::hashStr( t, 2 ) );
    StructuredData d;
    if ( parse( d, t ).status != Status::kOk ) return;
    uint32 indent = r.below( 4 );
    char ch = r.chance( 1, 2 ) ? ' ' : '\t';
    {
        // numbers beyond the range of doubles cannot be written
        reset();
        unlink( out.c_str() );
        if ( d.Write( out.c_str(), indent, ch ) != Status::kOk ) return;
    }
    std::string want = vf::readAll( out );
    std::string old = r.chance( 1, 2 ) ? std::string( want.size() + r.below( 50 ), 'x' ) : std::string();
    auto before = [ & ] { if ( old.empty() ) unlink( out.c_str() ); else vf::writeAll( out, old ); reset(); };
    before();
    writeCase( d, out, want, indent, ch, true, clip( t ) );
    uint64_t n = plan.calls;
    for ( uint64_t k = 0; k < n + 1; k++ )
    {
        for ( int f = fError; f < fFaults; f++ )
        {
            before();
            plan.at[ k ] = Fault( f );
            writeCase( d, out, want, indent, ch, f == fOne || f == fHalf, clip( t ) );
            if ( f == fZero || f == fOne || f == fHalf || k % 7 == 0 )
            {
                before();
                plan.from = k;
                plan.then = Fault( f );
                plan.limit = 4 * ( want.size() + n ) + 1000;
                writeCase( d, out, want, indent, ch, f == fOne || f == fHalf, clip( t ) );
            }
        }
    }
    for ( int f : { fOne, fHalf } )
    {
        before();
        plan.all = Fault( f );
        writeCase( d, out, want, indent, ch, true, clip( t ) );
        uint64_t m = plan.calls;
        for ( uint64_t k = 0; k < m + 1; k++ )
        {
            before();
            plan.all = Fault( f );
            plan.at[ k ] = Fault( fError + int( ( k * 5 + r.below( 3 ) ) % ( fFaults - fError ) ) );
            Fault g = plan.at[ k ];
            writeCase( d, out, want, indent, ch, g == fOne || g == fHalf, clip( t ) );
        }
    }
    for ( size_t b = 0; b <= want.size(); b++ )
    {
        before();
        plan.room = (long long)b;
        writeCase( d, out, want, indent, ch, b >= want.size(), clip( t ) );
        // the same by the kernel's hand
        before();
        rlimit l, full;
        getrlimit( RLIMIT_FSIZE, &full );
        l = full;
        l.rlim_cur = b;
        setrlimit( RLIMIT_FSIZE, &l );
        int fds = openFds();
        plan.armed = true;
        Status s = d.Write( out.c_str(), indent, ch );
        plan.armed = false;
        setrlimit( RLIMIT_FSIZE, &full );
        vf::st.evaluations++;
        vf::event( "file size limits" );
        if ( openFds() != fds ) vf::fail( "Write under a file size limit leaves a descriptor open" );
        if ( s == Status::kOk && vf::readAll( out ) != want ) vf::fail( "Write succeeds under a file size limit of " + std::to_string( b ) + " bytes for " + std::to_string( want.size() ) + "; " + clip( t ) );
        if ( s != Status::kOk && b >= want.size() ) vf::fail( "Write fails though the size limit is not reached; " + clip( t ) );
    }
    before();
    writeCase( d, out, want, indent, ch, true, clip( t ) );
}

// Random faults over larger documents, many at once.
static void randomFaults( uint64_t i, Rng& r )
{
    std::string t = i % 4 == 0 ? bigText( r ) : smallText( r );
    vf::nontrivial( vf::hashStr( t, 3 ) );
    vf::writeAll( in, t );
    StructuredData d;
    reset();
    if ( readCase( d, in, { t }, t.size() <= 65534, clip( t ) ) != Status::kOk ) return;
    uint64_t n = plan.calls;
    for ( int k = 0; k < 12; k++ )
    {
        reset();
        bool benign = true;
        if ( r.chance( 1, 2 ) ) plan.all = r.chance( 1, 2 ) ? fHalf : fOne;
        if ( plan.all == fOne && t.size() > 5000 ) plan.all = fHalf;
        for ( uint32_t c = r.below( 4 ); c > 0; c-- )
        {
            Fault f = Fault( r.range( fError, fFaults - 1 ) );
            if ( f != fOne && f != fHalf ) benign = false;
            plan.at[ r.below( uint32_t( n + 10 ) ) ] = f;
        }
        if ( r.chance( 1, 3 ) ) { plan.room = r.below( uint32_t( t.size() + 2 ) ); if ( plan.room < (long long)t.size() ) benign = false; }
        readCase( d, in, { t }, benign, clip( t ) );
    }
    reset();
    if ( readCase( d, in, { t }, true, clip( t ) ) != Status::kOk ) return;
    uint32 indent = r.below( 6 );
    reset();
    plan.armed = true;
    if ( d.Write( out.c_str(), indent, ' ' ) != Status::kOk ) { plan.armed = false; return; }
    plan.armed = false;
    n = plan.calls;
    std::string want = vf::readAll( out );
    for ( int k = 0; k < 12; k++ )
    {
        reset();
        bool benign = true;
        if ( r.chance( 1, 2 ) ) plan.all = r.chance( 1, 2 ) ? fHalf : fOne;
        for ( uint32_t c = r.below( 4 ); c > 0; c-- )
        {
            Fault f = Fault( r.range( fError, fFaults - 1 ) );
            if ( f != fOne && f != fHalf ) benign = false;
            plan.at[ r.below( uint32_t( n + 10 ) ) ] = f;
        }
        if ( r.chance( 1, 3 ) ) { plan.room = r.below( uint32_t( want.size() + 2 ) ); if ( plan.room < (long long)want.size() ) benign = false; }
        writeCase( d, out, want, indent, ' ', benign, clip( t ) );
    }
}

// The file changes while it is read.
static void changingFiles( uint64_t i, Rng& r )
{
    std::string a = smallText( r ), b = smallText( r );
    if ( r.chance( 1, 3 ) ) a += std::string( r.below( 20 ), ' ' );
    int how = int( i % 6 );
    if ( how == 0 ) b = a.substr( 0, r.below( uint32_t( a.size() ) ) );                       // shorter
    else if ( how == 1 ) b = a + std::string( 1 + r.below( 30 ), r.chance( 1, 2 ) ? ' ' : '1' ); // longer
    else if ( how == 2 ) { a = std::to_string( r.below( 1000 ) ); b = a + std::to_string( r.below( 1000 ) ); if ( r.chance( 1, 2 ) ) std::swap( a, b ); }
    else if ( how == 3 ) { a = "[" + a; b = a + "]"; }
    else if ( how == 4 ) b.clear();
    vf::nontrivial( vf::hashStr( a + "|" + b, 4 ) );
    for ( int when = 0; when < 3; when++ )
    {
        for ( int shorter = 0; shorter < 2; shorter++ )
        {
            vf::writeAll( in, a );
            StructuredData d;
            reset();
            auto change = [ &b ] { vf::writeAll( in, b ); };
            ( when == 0 ? plan.afterOpen : when == 1 ? plan.afterStat : plan.beforeRead ) = change;
            if ( shorter ) plan.all = fOne;
            // while the file is rewritten any mixture would be what it holds, so only whole changes are made
            readCase( d, in, { a, b, a.size() < b.size() ? b.substr( 0, a.size() ) : b }, false, "file changes from " + vf::shown( a, 80 ) + " to " + vf::shown( b, 80 ) );
            vf::event( "files changed under the reader" );
        }
    }
    // removed, or replaced, after it was opened
    vf::writeAll( in, a );
    StructuredData d;
    reset();
    bool gone = r.chance( 1, 2 );
    plan.afterOpen = [ & ] { if ( gone ) unlink( in.c_str() ); else { vf::writeAll( in + ".new", b ); rename( ( in + ".new" ).c_str(), in.c_str() ); } };
    readCase( d, in, { a, b }, false, "file is removed or replaced" );
}

static std::string padded( const std::string& core, size_t n )
{
    return core.size() >= n ? core : core + std::string( n - core.size(), ' ' );
}

static void sizes( uint64_t i, Rng& r )
{
    // 0-199: small; then around the limit; then far above
    size_t n = i < 200 ? i : i < 420 ? 65534 - 110 + ( i - 200 ) : i < 470 ? 65536 * 2 - 25 + ( i - 420 ) : i < 520 ? 65536 * 3 - 2 + ( i - 470 ) : 70000 + r.below( 3000000 );
    std::string t = padded( n > 40 && r.chance( 1, 2 ) ? "[1,2,{\"a\":null}]" : "7", n );
    if ( n == 0 ) t.clear();
    if ( n > 100 && r.chance( 1, 2 ) ) t = "\"" + std::string( n - 2, 'q' ) + "\"";
    vf::writeAll( in, t );
    vf::nontrivial( vf::hashStr( t, 5 ) );
    StructuredData d;
    reset();
    Status s = readCase( d, in, { t }, n > 0 && n <= 65534, "file of " + std::to_string( n ) + " bytes" );
    if ( n > 65534 && s == Status::kOk ) vf::fail( "a file of " + std::to_string( n ) + " bytes is accepted" );
    vf::event( n > 65534 ? "files above the limit" : "files within the limit" );
}

// Files whose size does not fit in narrower integers; only their beginning is on the disk.
static void sparse( uint64_t i, Rng& )
{
    static const int shift[] = { 16, 17, 31, 32, 33, 40 };
    static const char* const cores[] = { "1", "[1]", "{\"a\":[true]}", "\"text\"" };
    std::string core = cores[ i % 4 ];
    int sh = shift[ i / 4 % 6 ];
    int delta = int( i / 24 % 3 );
    long long size = ( 1ll << sh ) + ( delta == 0 ? (long long)core.size() : delta == 1 ? (long long)core.size() + 1 : 65534 );
    vf::writeAll( in, core );
    if ( truncate( in.c_str(), size ) != 0 ) { vf::event( "sparse file not possible" ); unlink( in.c_str() ); return; }
    StructuredData d;
    reset();
    if ( readCase( d, in, {}, false, "sparse file of " + std::to_string( size ) + " bytes" ) == Status::kOk ) vf::fail( "a file of " + std::to_string( size ) + " bytes is accepted" );
    vf::event( "sparse files" );
    unlink( in.c_str() );
    vf::nontrivial( uint64_t( size ) * 31 + i );
}

// Targets that are not ordinary files, seen by the kernel itself.
static void places( uint64_t i, Rng& r )
{
    std::string t = smallText( r );
    StructuredData d, e;
    if ( parse( d, t ).status != Status::kOk ) return;
    reset();
    unlink( out.c_str() );
    if ( d.Write( out.c_str() ) != Status::kOk ) return;
    std::string want = vf::readAll( out );
    auto no = [ & ]( const char* what, const std::string& path, bool reading, bool writing ) {
        vf::event( std::string( "place: " ) + what );
        if ( reading )
        {
            reset();
            StructuredData f;
            if ( readCase( f, path, {}, false, what ) == Status::kOk ) vf::fail( std::string( "Parse succeeds on " ) + what );
        }
        if ( writing )
        {
            reset();
            int before = openFds();
            plan.armed = true;
            Status s = d.Write( path.c_str() );
            afterCall( "Write", before );
            if ( s == Status::kOk ) vf::fail( std::string( "Write succeeds on " ) + what );
        }
    };
    no( "missing file", dir + "/missing", true, false );
    no( "missing directory", dir + "/nowhere/file", true, true );
    no( "directory", dir, true, true );
    no( "directory with slash", dir + "/", true, true );
    no( "empty name", "", true, true );
    no( "name too long", dir + "/" + std::string( 300, 'n' ), true, true );
    no( "path too long", dir + "/" + std::string( 5000, '/' ) + "x", true, true );
    vf::writeAll( in, t );
    no( "file used as directory", in + "/x", true, true );
    if ( access( "/dev/full", W_OK ) == 0 ) no( "full device", "/dev/full", false, true );
    if ( access( "/dev/null", R_OK ) == 0 ) no( "null device", "/dev/null", true, false );
    unlink( ( dir + "/loop" ).c_str() );
    if ( symlink( "loop", ( dir + "/loop" ).c_str() ) == 0 ) no( "symbolic link to itself", dir + "/loop", true, true );
    // a link to a file that does not exist yet
    unlink( ( dir + "/link" ).c_str() );
    unlink( ( dir + "/target" ).c_str() );
    if ( symlink( "target", ( dir + "/link" ).c_str() ) == 0 )
    {
        reset();
        writeCase( d, dir + "/link", want, 2, ' ', true, "through a symbolic link" );
        reset();
        readCase( e, dir + "/link", { want }, want.size() <= 65534, "through a symbolic link" );
    }
    // no rights: needs another user than root
    if ( geteuid() == 0 )
    {
        vf::writeAll( in, t );
        chmod( in.c_str(), 0 );
        std::string ro = dir + "/readonly";
        vf::writeAll( ro, "old content" );
        chmod( ro.c_str(), 0444 );
        if ( seteuid( 65534 ) == 0 )
        {
            no( "file without rights", in, true, true );
            no( "read-only file", ro, false, true );
            no( "directory without rights", dir + "/new", false, true );
            if ( seteuid( 0 ) != 0 ) vf::harnessError( "seteuid" );
            if ( vf::readAll( ro ) != "old content" ) vf::fail( "a failed Write changed a read-only file" );
        }
        chmod( in.c_str(), 0644 );
    }
    // descriptors used up
    {
        rlimit l, full;
        getrlimit( RLIMIT_NOFILE, &full );
        l = full;
        std::vector<int> hold;
        int fd = dup( 2 );
        l.rlim_cur = rlim_t( fd );
        close( fd );
        setrlimit( RLIMIT_NOFILE, &l );
        no( "no descriptor left", in, true, true );
        setrlimit( RLIMIT_NOFILE, &full );
    }
    // a document that cannot be written, or none, leaves no descriptor
    {
        StructuredData f;
        reset();
        int before = openFds();
        plan.armed = true;
        Status s = f.Write( out.c_str() );
        afterCall( "Write", before );
        if ( s == Status::kOk ) vf::fail( "Write of no document succeeds" );
        double inf = 1e308 * 10;
        if ( f.SerializeFrom( inf ) == Status::kOk )
        {
            reset();
            plan.armed = true;
            s = f.Write( out.c_str() );
            afterCall( "Write", before );
            if ( s == Status::kOk ) vf::fail( "Write of an infinite number succeeds" );
        }
        StructuredData g;
        vf::writeAll( in, t.substr( 0, t.size() / 2 ) + "\x01" );
        reset();
        plan.armed = true;
        g.Parse( in.c_str() );
        afterCall( "Parse", before );
    }
    vf::nontrivial( vf::hashStr( t, 6 ) + i );
}

// Many calls in a row on few descriptors.
static void endurance( uint64_t, Rng& r )
{
    int before = openFds();
    StructuredData d;
    for ( int k = 0; k < 400; k++ )
    {
        std::string t = smallText( r );
        vf::writeAll( in, t );
        reset();
        if ( r.chance( 1, 2 ) ) plan.at[ r.below( 6 ) ] = Fault( r.range( fError, fFaults - 1 ) );
        readCase( d, in, { t }, false, clip( t ) );
        reset();
        if ( r.chance( 1, 2 ) ) plan.at[ r.below( 20 ) ] = Fault( r.range( fError, fFaults - 1 ) );
        plan.armed = true;
        d.Write( out.c_str() );
        plan.armed = false;
    }
    if ( openFds() != before ) vf::fail( "descriptors are left open after many calls" );
}

static void all()
{
    signal( SIGXFSZ, SIG_IGN );
    dir = vf::st.dir + "/s" + std::to_string( vf::st.shard );
    mkdir( dir.c_str(), 0755 );
    in = dir + "/in.json";
    out = dir + "/out.json";
    vf::stream( "sizes", 700, sizes );
    vf::stream( "sparse", 72, sparse );
    vf::stream( "places", 64, places );
    vf::stream( "changing", vf::scaled( 1200 ), changingFiles );
    vf::stream( "reads", vf::scaled( 320 ), enumerateReads );
    vf::stream( "writes", vf::scaled( 120 ), enumerateWrites );
    vf::stream( "random", vf::scaled( 2400 ), randomFaults );
    vf::stream( "endurance", vf::scaled( 64 ), endurance );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
