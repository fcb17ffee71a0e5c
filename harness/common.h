// Shared by all monitors: random numbers, case recording, reporting, evidence.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace vf
{
    struct Rng
    {
        uint64_t s;
        explicit Rng( uint64_t seed ) : s( seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL ) { for ( int i = 0; i < 4; i++ ) next(); }
        uint64_t next()
        {
            uint64_t z = ( s += 0x9E3779B97F4A7C15ULL );
            z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ULL;
            z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBULL;
            return z ^ ( z >> 31 );
        }
        uint32_t below( uint32_t n ) { return n ? uint32_t( next() % n ) : 0; }
        int range( int lo, int hi ) { return lo + int( below( uint32_t( hi - lo + 1 ) ) ); }
        bool chance( uint32_t num, uint32_t den ) { return below( den ) < num; }
        template <class T> const T& pick( const std::vector<T>& v ) { return v[ below( uint32_t( v.size() ) ) ]; }
    };

    // Sizes on both sides of the limits of 16-bit and 17-bit numbers.
    inline int hugeSize( Rng& r )
    {
        static const int n[] = { 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 70001, 98304, 100003, 131071, 131072, 131073, 150000 };
        return n[ r.below( 16 ) ];
    }

    inline uint64_t hashBytes( const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL )
    {
        const unsigned char* b = static_cast<const unsigned char*>( p );
        for ( size_t i = 0; i < n; i++ ) { h ^= b[ i ]; h *= 0x100000001b3ULL; }
        return h ^ ( h >> 29 );
    }
    inline uint64_t hashStr( const std::string& s, uint64_t h = 0xcbf29ce484222325ULL ) { return hashBytes( s.data(), s.size(), h ); }

    inline std::string jsonQuote( const std::string& s )
    {
        std::string o = "\"";
        char b[ 8 ];
        for ( unsigned char c : s )
        {
            if ( c == '"' || c == '\\' ) { o += '\\'; o += char( c ); }
            else if ( c < 32 || c >= 127 ) { snprintf( b, 8, "\\u%04x", c ); o += b; }
            else o += char( c );
        }
        return o + "\"";
    }

    inline std::string shown( const std::string& s, size_t max = 160 )
    {
        std::string o;
        char b[ 8 ];
        for ( size_t i = 0; i < s.size() && i < max; i++ )
        {
            unsigned char c = s[ i ];
            if ( c == '\\' ) o += "\\\\";
            else if ( c < 32 || c >= 127 ) { snprintf( b, 8, "\\x%02x", c ); o += b; }
            else o += char( c );
        }
        if ( s.size() > max ) o += "... (" + std::to_string( s.size() ) + " bytes)";
        return o;
    }

    // --- run state -------------------------------------------------------

    struct State
    {
        std::string prop, dir, replay, mode;
        uint64_t seed = 1;
        int shard = 0, nshards = 1;
        double scale = 1;
        double slowest = 0; // wall seconds of one case
        double budget = 1e9; // seconds of wall time after which random streams stop early
        std::string onlyStream;
        uint64_t onlyIndex = 0;
        uint64_t evaluations = 0;
        std::map<std::string, uint64_t> events;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        bool countDistinct = true;
        char* current = nullptr; // mapped file holding the case under way
        std::string currentKey;
    };
    inline State st;

    constexpr size_t kCurrentSize = 1 << 20;

    inline void event( const std::string& name, uint64_t n = 1 ) { st.events[ name ] += n; }

    inline void sample( const std::string& s )
    {
        if ( st.samples.size() < 6 ) st.samples.push_back( shown( s ) );
    }

    inline void nontrivial( uint64_t h ) { if ( st.countDistinct ) st.distinct.insert( h ); }

    // Records the case about to be run, so that a crash can name it.
    inline void setCurrent( const std::string& what )
    {
        if ( !st.current ) return;
        size_t n = what.size() < kCurrentSize - 16 ? what.size() : kCurrentSize - 16;
        memcpy( st.current + 8, what.data(), n );
        uint64_t len = n;
        memcpy( st.current, &len, 8 );
    }

    inline void writeResult( const std::string& violation, const std::string& replayText )
    {
        std::string path = st.dir + "/result." + std::to_string( st.shard ) + ".json";
        FILE* f = fopen( ( path + ".t" ).c_str(), "w" );
        if ( !f ) { fprintf( stderr, "HARNESS: cannot write %s\n", path.c_str() ); _exit( 3 ); }
        fprintf( f, "{\"evaluations\":%llu,\"distinct\":%llu,\"slowest\":%.3f,\"events\":{", (unsigned long long)st.evaluations, (unsigned long long)st.distinct.size(), st.slowest );
        bool first = true;
        for ( auto& e : st.events ) { fprintf( f, "%s%s:%llu", first ? "" : ",", jsonQuote( e.first ).c_str(), (unsigned long long)e.second ); first = false; }
        fprintf( f, "},\"samples\":[" );
        first = true;
        for ( auto& s : st.samples ) { fprintf( f, "%s%s", first ? "" : ",", jsonQuote( s ).c_str() ); first = false; }
        fprintf( f, "],\"violation\":%s,\"replay\":%s}\n", violation.empty() ? "null" : jsonQuote( violation ).c_str(), jsonQuote( replayText ).c_str() );
        fclose( f );
        rename( ( path + ".t" ).c_str(), path.c_str() );
        std::string hp = st.dir + "/hashes." + std::to_string( st.shard );
        f = fopen( hp.c_str(), "wb" );
        if ( f )
        {
            for ( uint64_t h : st.distinct ) fwrite( &h, 8, 1, f );
            fclose( f );
        }
    }

    // Reports a violation and ends the run. replayText is what --replay takes.
    [[noreturn]] inline void violation( const std::string& what, const std::string& replayText )
    {
        writeResult( what, replayText );
        fprintf( stderr, "MONITOR: %s\n", what.c_str() );
        fflush( stderr );
        _exit( 1 );
    }

    [[noreturn]] inline void harnessError( const std::string& what )
    {
        fprintf( stderr, "HARNESS: %s\n", what.c_str() );
        _exit( 3 );
    }

    // --- watchdog on CPU time of a single case ----------------------------

    inline void onAlarm( int )
    {
        const char m[] = "WATCHDOG: a case used up its CPU time\n";
        if ( write( 2, m, sizeof( m ) - 1 ) ) {}
        _exit( 99 );
    }

    inline void armWatchdog( int seconds )
    {
        itimerval t {};
        t.it_value.tv_sec = seconds;
        setitimer( ITIMER_PROF, &t, nullptr );
    }

    inline void init( int argc, char** argv )
    {
        for ( int i = 1; i < argc; i++ )
        {
            std::string a = argv[ i ];
            auto eq = a.find( '=' );
            std::string k = a.substr( 0, eq ), v = eq == std::string::npos ? "" : a.substr( eq + 1 );
            if ( k == "--prop" ) st.prop = v;
            else if ( k == "--dir" ) st.dir = v;
            else if ( k == "--seed" ) st.seed = strtoull( v.c_str(), nullptr, 10 );
            else if ( k == "--shard" ) st.shard = atoi( v.c_str() );
            else if ( k == "--nshards" ) st.nshards = atoi( v.c_str() );
            else if ( k == "--scale" ) st.scale = atof( v.c_str() );
            else if ( k == "--replay" ) st.replay = v;
            else if ( k == "--mode" ) st.mode = v;
            else if ( k == "--budget" ) st.budget = atof( v.c_str() );
            else harnessError( "bad argument " + a );
        }
        if ( st.dir.empty() ) harnessError( "--dir missing" );
        std::string cp = st.dir + "/current." + std::to_string( st.shard );
        int fd = open( cp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644 );
        if ( fd < 0 || ftruncate( fd, kCurrentSize ) != 0 ) harnessError( "cannot create " + cp );
        st.current = static_cast<char*>( mmap( nullptr, kCurrentSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
        close( fd );
        if ( st.current == MAP_FAILED ) harnessError( "mmap" );
        struct sigaction sa {};
        sa.sa_handler = onAlarm;
        sigaction( SIGPROF, &sa, nullptr );
    }

    inline int finish()
    {
        writeResult( "", "" );
        return 0;
    }

    inline bool mine( uint64_t index ) { return int( index % uint64_t( st.nshards ) ) == st.shard; }

    inline std::string readAll( const std::string& path )
    {
        std::string o;
        int fd = open( path.c_str(), O_RDONLY );
        if ( fd < 0 ) return o;
        char b[ 65536 ];
        for ( ;; )
        {
            ssize_t n = read( fd, b, sizeof b );
            if ( n <= 0 ) break;
            o.append( b, size_t( n ) );
        }
        close( fd );
        return o;
    }

    inline void writeAll( const std::string& path, const std::string& s )
    {
        int fd = open( path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
        if ( fd < 0 ) harnessError( "cannot create " + path );
        size_t o = 0;
        while ( o < s.size() )
        {
            ssize_t n = write( fd, s.data() + o, s.size() - o );
            if ( n <= 0 ) harnessError( "cannot write " + path );
            o += size_t( n );
        }
        close( fd );
    }

    inline std::string hex( const std::string& s )
    {
        static const char d[] = "0123456789abcdef";
        std::string o;
        for ( unsigned char c : s ) { o += d[ c >> 4 ]; o += d[ c & 15 ]; }
        return o;
    }

    inline std::string unhex( const std::string& s )
    {
        auto v = []( char c ) { return c <= '9' ? c - '0' : ( c | 32 ) - 'a' + 10; };
        std::string o;
        for ( size_t i = 0; i + 1 < s.size() && isxdigit( (unsigned char)s[ i ] ); i += 2 ) o += char( v( s[ i ] ) * 16 + v( s[ i + 1 ] ) );
        return o;
    }

    // --- streams of cases ---------------------------------------------------
    // A case is named by its stream and index; everything random in it comes from (seed, stream, index).

    inline double now()
    {
        timespec t;
        clock_gettime( CLOCK_MONOTONIC, &t );
        return double( t.tv_sec ) + double( t.tv_nsec ) * 1e-9;
    }

    inline std::string caseName; // "stream index", what --replay takes

    [[noreturn]] inline void fail( const std::string& what ) { violation( what, caseName ); }

    inline uint64_t scaled( double n ) { return uint64_t( n * st.scale ); }

    inline double startTime = 0;

    // Runs cases 0..count-1 of a stream; only those of this shard. seconds: CPU limit of one case.
    inline void stream( const std::string& name, uint64_t count, const std::function<void( uint64_t, Rng& )>& run, int seconds = 60 )
    {
        if ( startTime == 0 ) startTime = now();
        if ( !st.onlyStream.empty() )
        {
            if ( st.onlyStream != name ) return;
            caseName = name + " " + std::to_string( st.onlyIndex );
            setCurrent( caseName );
            armWatchdog( seconds );
            Rng r( hashStr( name, st.seed * 0x100000001b3ULL + 7 ) ^ ( st.onlyIndex * 0xD1B54A32D192ED03ULL ) );
            run( st.onlyIndex, r );
            armWatchdog( 0 );
            return;
        }
        uint64_t done = 0;
        const uint64_t n = uint64_t( st.nshards );
        double armed = 0, before = now();
        for ( uint64_t block = 0; block * n < count; block++ )
        {
            // each shard takes one case of each block, not always at the same place in it
            uint64_t i = block * n + ( uint64_t( st.shard ) + ( block * 0x9E3779B97F4A7C15ULL >> 40 ) ) % n;
            if ( i >= count ) continue;
            if ( ( done & 15 ) == 0 || before - armed > 0.5 )
            {
                armWatchdog( seconds );
                armed = before;
                if ( now() - startTime > st.budget ) { event( "stopped_early:" + name ); break; }
            }
            caseName = name + " " + std::to_string( i );
            setCurrent( caseName );
            Rng r( hashStr( name, st.seed * 0x100000001b3ULL + 7 ) ^ ( i * 0xD1B54A32D192ED03ULL ) );
            run( i, r );
            done++;
            double after = now();
            if ( after - before > st.slowest ) st.slowest = after - before;
            before = after;
        }
        armWatchdog( 0 );
        event( "cases:" + name, done );
    }

    inline int main( int argc, char** argv, void ( *all )() )
    {
        init( argc, argv );
        if ( !st.replay.empty() )
        {
            auto sp = st.replay.find( ' ' );
            st.onlyStream = st.replay.substr( 0, sp );
            st.onlyIndex = sp == std::string::npos ? 0 : strtoull( st.replay.c_str() + sp + 1, nullptr, 10 );
        }
        all();
        return finish();
    }
} // namespace vf
