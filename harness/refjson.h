// An independent reader of RFC 8259 texts: acceptance, the denoted tree, and where and why a text fails.
// It knows nothing of the library.
#pragma once

#include <algorithm>
#include <charconv>
#include <cmath>
#include <cstdint>
#include <limits>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace ref
{
    enum Kind { kString, kNumber, kBool, kNull, kArray, kObject };

    struct Member;

    struct Node
    {
        Node();
        Node( const Node& );
        Node( Node&& ) noexcept;
        Node& operator=( const Node& );
        Node& operator=( Node&& ) noexcept;
        ~Node();

        Kind                                       kind = kNull;
        std::string                                text;   // string: decoded bytes; number: the literal
        double                                     number = 0;
        bool                                       flag   = false;
        std::vector<Node>                          items;
        std::vector<Member>                        members; // in text order, first of repeated names only
    };

    struct Member
    {
        std::string first;
        Node        second;
        Member( std::string f, Node s ) : first( std::move( f ) ), second( std::move( s ) ) {}
    };

    inline Node::Node()                           = default;
    inline Node::Node( const Node& )              = default;
    inline Node::Node( Node&& ) noexcept          = default;
    inline Node& Node::operator=( const Node& )   = default;
    inline Node& Node::operator=( Node&& ) noexcept = default;
    inline Node::~Node()                          = default;

    enum Fault
    {
        fNone,
        fValue,        // a value was expected
        fNumber,       // malformed number
        fLeadingZero,  // number with a leading zero
        fLiteral,      // misspelt true, false, null
        fStringChar,   // control character or ill-formed UTF-8 inside a string
        fStringEscape, // bad escape
        fStringEnd,    // text ends inside a string
        fName,         // name of a member expected
        fNameAfterComma,
        fColon,
        fArrayEnd,     // ',' or ']' expected
        fObjectEnd,    // ',' or '}' expected
        fTrailing,     // something behind the value
        fDepth         // deeper than this reader goes; nothing else is known of the text
    };

    struct Result
    {
        bool   ok    = false;
        Fault  fault = fNone;
        size_t lo = 0, hi = 0;   // first byte of the offending token, first byte that cannot continue a valid text
        int    depth = 0;        // greatest nesting
        bool   nulEscape = false;      // contains \u0000
        bool   loneSurrogate = false;  // contains an escape of half a surrogate pair
        bool   encodedSurrogate = false; // contains a surrogate encoded in UTF-8
        bool   duplicates = false;
        size_t values = 0, names = 0, escapes = 0, pairs = 0;
        Node   root;
    };

    // Length of the well-formed UTF-8 character at p, 0 if ill-formed (then *bad is the offset of the first offending byte).
    // Encoded surrogates count as characters here, they are reported through *surrogate.
    inline int utf8Length( const unsigned char* p, const unsigned char* end, size_t* bad, bool* surrogate )
    {
        unsigned c = p[ 0 ];
        if ( c < 0x80 ) return 1;
        int need;
        unsigned lo = 0x80, hi = 0xBF;
        if ( c >= 0xC2 && c <= 0xDF ) need = 2;
        else if ( c >= 0xE0 && c <= 0xEF ) { need = 3; if ( c == 0xE0 ) lo = 0xA0; }
        else if ( c >= 0xF0 && c <= 0xF4 ) { need = 4; if ( c == 0xF0 ) lo = 0x90; if ( c == 0xF4 ) hi = 0x8F; }
        else { *bad = 0; return 0; }
        for ( int i = 1; i < need; i++ )
        {
            if ( p + i >= end || p[ i ] < lo || p[ i ] > hi ) { *bad = size_t( i ); return 0; }
            if ( i == 1 && c == 0xED && p[ 1 ] >= 0xA0 && surrogate ) *surrogate = true;
            lo = 0x80;
            hi = 0xBF;
        }
        return need;
    }

    inline void appendUtf8( std::string& s, uint32_t c )
    {
        if ( c < 0x80 ) s += char( c );
        else if ( c < 0x800 ) { s += char( 0xC0 | c >> 6 ); s += char( 0x80 | ( c & 63 ) ); }
        else if ( c < 0x10000 ) { s += char( 0xE0 | c >> 12 ); s += char( 0x80 | ( c >> 6 & 63 ) ); s += char( 0x80 | ( c & 63 ) ); }
        else { s += char( 0xF0 | c >> 18 ); s += char( 0x80 | ( c >> 12 & 63 ) ); s += char( 0x80 | ( c >> 6 & 63 ) ); s += char( 0x80 | ( c & 63 ) ); }
    }

    // Nearest double of an RFC 8259 number literal.
    inline double toDouble( const std::string& lit )
    {
        double d = 0;
        auto r = std::from_chars( lit.data(), lit.data() + lit.size(), d );
        if ( r.ec == std::errc::result_out_of_range )
        {
            // Overflow or underflow: decided by the decimal exponent of the first significant digit.
            bool neg = lit[ 0 ] == '-';
            long long lead = 0; // position of the first significant digit relative to the point
            bool seen = false, point = false;
            long long exp = 0;
            size_t i = neg ? 1 : 0;
            long long intDigits = 0, fracZeros = 0;
            for ( ; i < lit.size() && lit[ i ] != 'e' && lit[ i ] != 'E'; i++ )
            {
                if ( lit[ i ] == '.' ) { point = true; continue; }
                if ( lit[ i ] != '0' ) seen = true;
                if ( !point && seen ) intDigits++;
                if ( point && !seen ) fracZeros++;
            }
            if ( i < lit.size() )
            {
                bool en = false;
                i++;
                if ( lit[ i ] == '+' || lit[ i ] == '-' ) en = lit[ i++ ] == '-';
                for ( ; i < lit.size(); i++ ) if ( exp < 1000000000000LL ) exp = exp * 10 + ( lit[ i ] - '0' );
                if ( en ) exp = -exp;
            }
            lead = intDigits ? intDigits : -fracZeros;
            d = lead + exp > 0 ? std::numeric_limits<double>::infinity() : 0.0;
            if ( neg ) d = -d;
        }
        return d;
    }

    constexpr int kMaxDepth = 1500;

    struct Reader
    {
        const unsigned char *begin, *end, *p;
        Result& r;
        int depth = 0;
        bool build;

        Reader( const std::string& s, Result& res, bool b ) : begin( reinterpret_cast<const unsigned char*>( s.data() ) ), end( begin + s.size() ), p( begin ), r( res ), build( b ) {}

        int at() const { return p < end ? int( *p ) : -1; }
        void ws() { while ( p < end && ( *p == ' ' || *p == '\t' || *p == '\n' || *p == '\r' ) ) p++; }
        bool fail( Fault f, const unsigned char* lo, const unsigned char* hi )
        {
            r.fault = f;
            r.lo = size_t( lo - begin );
            r.hi = size_t( hi - begin );
            return false;
        }
        static int hexv( int c )
        {
            if ( c >= '0' && c <= '9' ) return c - '0';
            if ( c >= 'a' && c <= 'f' ) return c - 'a' + 10;
            if ( c >= 'A' && c <= 'F' ) return c - 'A' + 10;
            return -1;
        }

        bool string( std::string& out )
        {
            const unsigned char* start = p++;
            uint32_t high = 0; // pending high half
            for ( ;; )
            {
                if ( p >= end ) return fail( fStringEnd, start, p );
                unsigned c = *p;
                if ( c == '\\' )
                {
                    r.escapes++;
                    if ( p + 1 >= end ) return fail( fStringEscape, start, p + 1 );
                    int e = p[ 1 ];
                    if ( e == 'u' )
                    {
                        uint32_t v = 0;
                        for ( int i = 2; i < 6; i++ )
                        {
                            int h = p + i < end ? hexv( p[ i ] ) : -1;
                            if ( h < 0 ) return fail( fStringEscape, start, p + i );
                            v = v * 16 + uint32_t( h );
                        }
                        p += 6;
                        if ( v == 0 ) r.nulEscape = true;
                        if ( v >= 0xDC00 && v <= 0xDFFF && high )
                        {
                            appendUtf8( out, 0x10000 + ( ( high - 0xD800 ) << 10 ) + ( v - 0xDC00 ) );
                            r.pairs++;
                            high = 0;
                            continue;
                        }
                        if ( high ) { r.loneSurrogate = true; appendUtf8( out, high ); high = 0; }
                        if ( v >= 0xD800 && v <= 0xDBFF ) { high = v; continue; }
                        if ( v >= 0xDC00 && v <= 0xDFFF ) r.loneSurrogate = true;
                        appendUtf8( out, v );
                        continue;
                    }
                    if ( high ) { r.loneSurrogate = true; appendUtf8( out, high ); high = 0; }
                    char d;
                    switch ( e )
                    {
                        case '"': d = '"'; break;
                        case '\\': d = '\\'; break;
                        case '/': d = '/'; break;
                        case 'b': d = 8; break;
                        case 'f': d = 12; break;
                        case 'n': d = 10; break;
                        case 'r': d = 13; break;
                        case 't': d = 9; break;
                        default: return fail( fStringEscape, start, p + 1 );
                    }
                    out += d;
                    p += 2;
                    continue;
                }
                if ( high ) { r.loneSurrogate = true; appendUtf8( out, high ); high = 0; }
                if ( c == '"' ) { p++; return true; }
                if ( c == 0 ) return fail( fStringEnd, start, p );
                if ( c < 32 ) return fail( fStringChar, start, p );
                size_t bad = 0;
                int n = utf8Length( p, end, &bad, &r.encodedSurrogate );
                if ( n == 0 ) return fail( fStringChar, start, p + bad );
                out.append( reinterpret_cast<const char*>( p ), size_t( n ) );
                p += n;
            }
        }

        bool number( Node& n )
        {
            const unsigned char* start = p;
            auto digit = [ & ]() { return p < end && *p >= '0' && *p <= '9'; };
            if ( at() == '-' ) p++;
            if ( !digit() ) return fail( fNumber, start, p );
            if ( *p == '0' )
            {
                p++;
                if ( digit() ) return fail( fLeadingZero, start, p );
            }
            else while ( digit() ) p++;
            if ( at() == '.' )
            {
                p++;
                if ( !digit() ) return fail( fNumber, start, p );
                while ( digit() ) p++;
            }
            if ( at() == 'e' || at() == 'E' )
            {
                p++;
                if ( at() == '+' || at() == '-' ) p++;
                if ( !digit() ) return fail( fNumber, start, p );
                while ( digit() ) p++;
            }
            n.kind = kNumber;
            n.text.assign( reinterpret_cast<const char*>( start ), size_t( p - start ) );
            if ( build ) n.number = toDouble( n.text );
            return true;
        }

        bool literal( const char* word )
        {
            const unsigned char* start = p;
            for ( const char* w = word; *w; w++, p++ )
                if ( at() != *w ) return fail( fLiteral, start, p );
            return true;
        }

        bool value( Node& n )
        {
            r.values++;
            int c = at();
            switch ( c )
            {
                case '"': n.kind = kString; return string( n.text );
                case 't': n.kind = kBool; n.flag = true; return literal( "true" );
                case 'f': n.kind = kBool; n.flag = false; return literal( "false" );
                case 'n': n.kind = kNull; return literal( "null" );
                case '[': return array( n );
                case '{': return object( n );
                default: break;
            }
            if ( c == '-' || ( c >= '0' && c <= '9' ) ) return number( n );
            return fail( fValue, p, p );
        }

        bool array( Node& n )
        {
            n.kind = kArray;
            if ( ++depth > r.depth ) r.depth = depth;
            if ( depth > kMaxDepth ) return fail( fDepth, p, p );
            p++;
            ws();
            if ( at() == ']' ) { p++; depth--; return true; }
            for ( ;; )
            {
                Node tmp;
                if ( !value( tmp ) ) return false;
                n.items.push_back( std::move( tmp ) );
                ws();
                if ( at() == ']' ) { p++; depth--; return true; }
                if ( at() != ',' ) return fail( fArrayEnd, p, p );
                p++;
                ws();
            }
        }

        bool object( Node& n )
        {
            n.kind = kObject;
            if ( ++depth > r.depth ) r.depth = depth;
            if ( depth > kMaxDepth ) return fail( fDepth, p, p );
            p++;
            ws();
            if ( at() == '}' ) { p++; depth--; return true; }
            bool first = true;
            std::vector<std::string> sortedNames;
            for ( ;; )
            {
                if ( at() != '"' ) return fail( first ? fName : fNameAfterComma, p, p );
                first = false;
                std::string name;
                if ( !string( name ) ) return false;
                r.names++;
                ws();
                if ( at() != ':' ) return fail( fColon, p, p );
                p++;
                ws();
                Node tmp;
                if ( !value( tmp ) ) return false;
                n.members.emplace_back( std::move( name ), std::move( tmp ) );
                ws();
                if ( at() == '}' ) { p++; break; }
                if ( at() != ',' ) return fail( fObjectEnd, p, p );
                p++;
                ws();
            }
            depth--;
            dedup( n );
            return true;
        }

        void dedup( Node& n );
    };

    inline void Reader::dedup( Node& n )
    {
        if ( n.members.size() < 2 ) return;
        std::vector<size_t> idx( n.members.size() );
        for ( size_t i = 0; i < idx.size(); i++ ) idx[ i ] = i;
        std::vector<bool> drop( idx.size(), false );
        // sort by (name, position)
        auto less = [ & ]( size_t a, size_t b ) { int c = n.members[ a ].first.compare( n.members[ b ].first ); return c ? c < 0 : a < b; };
        std::sort( idx.begin(), idx.end(), less );
        bool any = false;
        for ( size_t i = 1; i < idx.size(); i++ )
            if ( n.members[ idx[ i ] ].first == n.members[ idx[ i - 1 ] ].first ) { drop[ idx[ i ] ] = true; any = true; }
        if ( !any ) return;
        r.duplicates = true;
        std::vector<Member> kept;
        for ( size_t i = 0; i < n.members.size(); i++ )
            if ( !drop[ i ] ) kept.push_back( std::move( n.members[ i ] ) );
        n.members.swap( kept );
    }

    inline Result read( const std::string& s, bool build = true )
    {
        Result r;
        Reader rd( s, r, build );
        rd.ws();
        r.ok = rd.value( r.root );
        if ( r.ok )
        {
            rd.ws();
            if ( rd.p != rd.end ) r.ok = rd.fail( fTrailing, rd.p, rd.p );
        }
        return r;
    }
} // namespace ref
