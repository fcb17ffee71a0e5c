// Generators of JSON texts: valid, near-valid and hostile.  They decide nothing: what a text denotes is decided by refjson.h.
#pragma once

#include "common.h"
#include "refjson.h"

namespace gen
{
    using vf::Rng;

    struct Opt
    {
        int      maxDepth   = 6;
        int      budget     = 40;   // values
        bool     duplicates = true;
        bool     longText   = true;
        bool     lone       = false; // escapes of half a surrogate pair
        bool     nulEscape  = false;
        bool     spaces     = true;
    };

    inline void ws( Rng& r, std::string& o, const Opt& opt )
    {
        if ( !opt.spaces || !r.chance( 1, 4 ) ) return;
        static const char* const w[] = { " ", "\n", "\t", "\r", "\r\n", "  ", "\n\n  ", " \t \n\r " };
        o += w[ r.below( 8 ) ];
        if ( r.chance( 1, 40 ) ) o += std::string( size_t( r.range( 1, 70 ) ), ' ' );
    }

    inline uint32_t codePoint( Rng& r )
    {
        static const uint32_t edge[] = { 0x20, 0x21, 0x7E, 0x7F, 0x80, 0x81, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x2028, 0x2029, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFDD0, 0xFEFF, 0xFFFD, 0xFFFE,
                                         0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF };
        if ( r.chance( 1, 2 ) ) return edge[ r.below( sizeof edge / sizeof *edge ) ];
        for ( ;; )
        {
            uint32_t bits = r.below( 21 ) + 1;
            uint32_t c    = uint32_t( r.next() ) & ( ( 1u << bits ) - 1 );
            if ( c >= 0x20 && c <= 0x10FFFF && !( c >= 0xD800 && c <= 0xDFFF ) ) return c;
        }
    }

    inline void hex4( Rng& r, std::string& o, uint32_t v )
    {
        const char* lower = "0123456789abcdef";
        const char* upper = "0123456789ABCDEF";
        for ( int s = 12; s >= 0; s -= 4 ) o += ( r.chance( 1, 2 ) ? lower : upper )[ v >> s & 15 ];
    }

    inline void uEscape( Rng& r, std::string& o, uint32_t c )
    {
        o += "\\u";
        if ( c >= 0x10000 )
        {
            c -= 0x10000;
            hex4( r, o, 0xD800 + ( c >> 10 ) );
            o += "\\u";
            hex4( r, o, 0xDC00 + ( c & 0x3FF ) );
        }
        else hex4( r, o, c );
    }

    // One character of a string literal, in some notation.
    inline void stringChar( Rng& r, std::string& o, const Opt& opt )
    {
        switch ( r.below( 12 ) )
        {
            case 0: case 1: case 2: case 3: case 4:
            {
                char c;
                do c = char( r.range( 0x20, 0x7F ) );
                while ( c == '"' || c == '\\' );
                o += c;
                break;
            }
            case 5: o += '\\'; o += "\"\\/bfnrt"[ r.below( 8 ) ]; break;
            case 6: uEscape( r, o, r.chance( 1, 4 ) ? uint32_t( r.range( opt.nulEscape ? 0 : 1, 0x7F ) ) : codePoint( r ) ); break;
            case 7: uEscape( r, o, codePoint( r ) ); break;
            case 8:
                if ( opt.lone ) { o += "\\u"; hex4( r, o, uint32_t( r.range( 0xD800, 0xDFFF ) ) ); break; }
                // fallthrough
            default:
            {
                uint32_t c = codePoint( r );
                if ( c == '"' || c == '\\' ) c = 'x';
                ref::appendUtf8( o, c );
                break;
            }
        }
    }

    inline int boundaryLength( Rng& r )
    {
        static const int b[] = { 0, 1, 2, 7, 8, 13, 14, 15, 16, 17, 23, 24, 29, 30, 31, 32, 33, 47, 48, 49, 61, 62, 63, 64, 65, 66, 79, 80, 81, 95, 96, 97, 111, 112, 127, 128, 129, 143, 255, 256, 257 };
        return b[ r.below( sizeof b / sizeof *b ) ];
    }

    inline void string( Rng& r, std::string& o, const Opt& opt )
    {
        o += '"';
        int kind = int( r.below( 10 ) );
        if ( kind < 5 )
        {
            int n = r.range( 0, 8 );
            for ( int i = 0; i < n; i++ ) stringChar( r, o, opt );
        }
        else if ( kind < 8 || !opt.longText )
        {
            int n = r.range( 0, 6 );
            for ( int i = 0; i < n; i++ ) o += char( 'a' + r.below( 26 ) );
        }
        else
        {
            // a length around an allocation boundary, ending in one interesting character
            int n = boundaryLength( r );
            if ( r.chance( 1, 30 ) ) n = r.range( 300, 5000 );
            bool plain = r.chance( 1, 2 );
            for ( int i = 0; i < n; i++ )
            {
                if ( plain ) o += char( 'a' + i % 26 );
                else stringChar( r, o, opt );
            }
            if ( r.chance( 1, 2 ) ) stringChar( r, o, opt );
        }
        o += '"';
    }

    inline void number( Rng& r, std::string& o )
    {
        if ( r.chance( 1, 3 ) ) o += '-';
        auto digits = [ & ]( int n ) { for ( int i = 0; i < n; i++ ) o += char( '0' + r.below( 10 ) ); };
        switch ( r.below( 8 ) )
        {
            case 0: o += '0'; break;
            case 1: o += char( '1' + r.below( 9 ) ); break;
            default:
                o += char( '1' + r.below( 9 ) );
                digits( r.chance( 1, 10 ) ? r.range( 10, 40 ) : r.range( 0, 6 ) );
        }
        if ( r.chance( 1, 3 ) )
        {
            o += '.';
            digits( r.chance( 1, 10 ) ? r.range( 10, 40 ) : r.range( 1, 6 ) );
        }
        if ( r.chance( 1, 4 ) )
        {
            o += r.chance( 1, 2 ) ? 'e' : 'E';
            if ( r.chance( 1, 2 ) ) o += r.chance( 1, 2 ) ? '+' : '-';
            if ( r.chance( 1, 6 ) ) o += "00";
            o += std::to_string( r.chance( 1, 8 ) ? r.range( 0, 400 ) : r.range( 0, 30 ) );
        }
    }

    inline void name( Rng& r, std::string& o, const Opt& opt, std::vector<std::string>& used )
    {
        size_t at = o.size();
        if ( !used.empty() && opt.duplicates && r.chance( 1, 10 ) ) { o += used[ r.below( uint32_t( used.size() ) ) ]; return; }
        if ( !used.empty() && r.chance( 1, 6 ) )
        {
            // a neighbour of an earlier name: one character longer or another last character
            std::string n = used[ r.below( uint32_t( used.size() ) ) ];
            n.pop_back();
            if ( n.size() > 1 && r.chance( 1, 2 ) && (unsigned char)n.back() < 0x80 && n.find( '\\' ) == std::string::npos ) n.pop_back();
            n += char( 'a' + r.below( 26 ) );
            o += n + "\"";
        }
        else if ( r.chance( 1, 3 ) ) { o += "\"k" + std::to_string( r.below( 1000 ) ) + "\""; }
        else string( r, o, opt );
        used.push_back( o.substr( at ) );
    }

    inline void value( Rng& r, std::string& o, const Opt& opt, int depth, int& budget )
    {
        budget--;
        uint32_t k = r.below( depth >= opt.maxDepth || budget <= 0 ? 6 : 12 );
        switch ( k )
        {
            case 0: o += r.chance( 1, 2 ) ? "true" : "false"; break;
            case 1: o += "null"; break;
            case 2: case 3: number( r, o ); break;
            case 4: case 5: string( r, o, opt ); break;
            case 6: case 7: case 8:
            {
                o += '[';
                ws( r, o, opt );
                int n = r.chance( 1, 25 ) ? r.range( 8, 80 ) : r.range( 0, 5 );
                for ( int i = 0; i < n && ( i < 5 || budget > -200 ); i++ )
                {
                    if ( i ) { ws( r, o, opt ); o += ','; ws( r, o, opt ); }
                    value( r, o, opt, depth + 1, budget );
                }
                ws( r, o, opt );
                o += ']';
                break;
            }
            default:
            {
                o += '{';
                ws( r, o, opt );
                int n = r.chance( 1, 25 ) ? r.range( 8, 80 ) : r.range( 0, 5 );
                std::vector<std::string> used;
                for ( int i = 0; i < n && ( i < 5 || budget > -200 ); i++ )
                {
                    if ( i ) { ws( r, o, opt ); o += ','; ws( r, o, opt ); }
                    name( r, o, opt, used );
                    ws( r, o, opt );
                    o += ':';
                    ws( r, o, opt );
                    value( r, o, opt, depth + 1, budget );
                }
                ws( r, o, opt );
                o += '}';
            }
        }
    }

    inline std::string document( Rng& r, const Opt& opt = Opt() )
    {
        std::string o;
        int budget = opt.budget;
        ws( r, o, opt );
        // mostly containers at the top
        if ( r.chance( 4, 5 ) )
        {
            for ( int tries = 0;; tries++ )
            {
                std::string t = o;
                int b = budget;
                value( r, t, opt, 0, b );
                char c = t[ o.size() ];
                if ( c == '[' || c == '{' || tries > 200 ) { o = t; break; }
            }
        }
        else value( r, o, opt, 0, budget );
        ws( r, o, opt );
        return o;
    }

    // An object of n names in a chosen order; values tell the position.
    inline std::string bigObject( Rng& r, int n, int order )
    {
        std::vector<std::string> names;
        for ( int i = 0; i < n; i++ )
        {
            char b[ 40 ];
            switch ( order % 4 )
            {
                case 0: snprintf( b, sizeof b, "%06d", i ); break;
                case 1: snprintf( b, sizeof b, "%06d", n - i ); break;
                case 2: snprintf( b, sizeof b, "n%u", unsigned( r.below( uint32_t( n * 2 ) ) ) ); break;
                default: snprintf( b, sizeof b, "name_%d_with_a_longer_text", ( i * 7919 ) % n ); break;
            }
            names.push_back( b );
        }
        std::string o = "{";
        for ( int i = 0; i < n; i++ ) o += ( i ? "," : "" ) + ( "\"" + names[ size_t( i ) ] + "\":" ) + std::to_string( i );
        return o + "}";
    }

    // A document that is large in one dimension.
    inline std::string large( Rng& r, int n )
    {
        static const std::vector<std::string> leaves = { "1", "-0.5", "null", "true", "false", "\"\"", "\"abc\"", "\"a text that does not fit into a buffer of its own\"", "[]", "{}", "[[0],\"x\"]", "{\"a\":{\"b\":\"c\"}}" };
        bool mixed = r.chance( 1, 2 );
        std::string leaf = r.pick( leaves ), o;
        auto value = [ & ]() -> const std::string& { return mixed ? r.pick( leaves ) : leaf; };
        int how = int( r.below( 6 ) );
        uint32_t mul = uint32_t( r.next() ) | 1;
        if ( how == 0 || how == 1 )
        {
            o = "[";
            for ( int i = 0; i < n; i++ ) o += ( i ? "," : "" ) + value();
            return o + "]";
        }
        if ( how == 2 || how == 3 )
        {
            // distinct names: rising, falling or scattered
            int order = int( r.below( 3 ) );
            o = "{";
            for ( int i = 0; i < n; i++ )
            {
                char b[ 24 ];
                snprintf( b, sizeof b, "%08x", order == 0 ? uint32_t( i ) : order == 1 ? uint32_t( n - i ) : uint32_t( i ) * mul );
                o += std::string( i ? "," : "" ) + "\"" + b + "\":" + value();
            }
            return o + "}";
        }
        if ( how == 4 )
        {
            o = "[\"";
            for ( int i = 0; i < n * 4; i++ ) o += i % 7 == 3 ? "\\n" : i % 11 == 5 ? "\xc3\xa9" : "x";
            return o + "\"]";
        }
        // many small ones inside
        o = "[";
        for ( int i = 0; i * 10 < n; i++ ) { o += i ? ",[" : "["; for ( int k = 0; k < 10; k++ ) o += ( k ? "," : "" ) + value(); o += "]"; }
        return o + "]";
    }

    // A valid text that is huge in one of 20 dimensions.
    const int kHuge = 20;
    inline std::string huge( Rng& r, uint64_t i, int n = 0 )
    {
        if ( n == 0 ) n = vf::hugeSize( r );
        size_t N = size_t( n );
        auto times = [ & ]( const char* u ) { std::string o; for ( int k = 0; k < n; k++ ) o += u; return o; };
        auto list = [ & ]( const char* open, const char* close, auto item ) { std::string o = open; for ( int k = 0; k < n; k++ ) { if ( k ) o += ","; o += item( k ); } return o + close; };
        switch ( i % kHuge )
        {
            case 0: return "[1," + std::string( N, ' ' ) + "\"a\"]";
            case 1: return std::string( N, '\n' ) + "{\"a\":[true]}";
            case 2: return "{\"a\":1}" + std::string( N, '\t' ) + "\n";
            case 3: return "{\"a\"" + std::string( N, r.chance( 1, 2 ) ? '\r' : ' ' ) + ":" + std::string( N, '\n' ) + "{\"b\"" + std::string( N / 2, ' ' ) + ":0}" + std::string( N, ' ' ) + "}";
            case 4: return "[\"" + std::string( N, 'q' ) + "\",\"end\"]";
            case 5: return "[\"" + times( "\\n" ) + "\",\"end\"]";
            case 6: return "[\"" + times( r.chance( 1, 2 ) ? "\xc3\xa9" : "\xf0\x9f\x98\x80" ) + "x\",\"end\"]";
            case 7: return "[\"" + times( r.chance( 1, 2 ) ? "\\u00e9" : "\\ud83d\\ude00" ) + "x\",\"end\"]";
            case 8: return "[1,0." + std::string( N, '0' ) + "123e" + std::to_string( n ) + ",2]";
            case 9: return "[1,123" + std::string( N, '0' ) + "e-" + std::to_string( n ) + ",2]";
            case 10: return "[1,2.5e" + std::string( N, '0' ) + "2,2]";
            case 11: return "[-0." + std::string( N, '3' ) + ",2]";
            case 12: return list( "[", "]", []( int k ) { return std::to_string( k & 7 ); } );
            case 13: return list( "[", "]", []( int k ) { return std::string( k % 3 ? "null" : k & 1 ? "[]" : "\"s\"" ); } );
            case 14: return list( "{", "}", []( int k ) { return "\"" + std::to_string( k ) + "\":" + std::to_string( k & 7 ); } );
            case 15: { uint32_t mul = uint32_t( r.next() ) | 1; return list( "{", "}", [ mul ]( int k ) { char b[ 16 ]; snprintf( b, 16, "%08x", uint32_t( k ) * mul ); return "\"" + std::string( b ) + "\":true"; } ); }
            case 16: return "{\"" + std::string( N, 'n' ) + "\":1,\"" + std::string( N, 'n' ) + "x\":2,\"" + std::string( N - 1, 'n' ) + "\":3,\"n\":4}";
            case 17: return list( "{", ",\"b\":2}", []( int k ) { return "\"a\":" + std::to_string( k & 7 ); } );
            case 18: return list( "[", "\n]", []( int k ) { return std::string( k & 1 ? "\n" : "\r\n" ) + "false"; } );
            default: return "[[" + list( "[", "]", []( int ) { return std::string( "{}" ); } ) + ",{\"a\":" + list( "[", "]", []( int ) { return std::string( "\"\"" ); } ) + "}]]";
        }
    }

    inline std::string bytes( Rng& r, int n )
    {
        std::string o;
        for ( int i = 0; i < n; i++ ) o += char( r.below( 256 ) );
        return o;
    }

    // Small damage to a text.
    inline std::string mutate( Rng& r, std::string s )
    {
        static const std::vector<std::string> bits = { "{", "}", "[", "]", ":", ",", "\"", "\\", "\\u", "\\u00", "\\ud83d", "\\udc00", "0", "-", "+", ".", "e", "E", "e+", "01", "-0", "true", "false", "null", "tru", "nul",
                                                       "\n", "\t", "\r", " ", "\x0b", "\x0c", "\x01", "\x1f", "\x7f", "\x80", "\xbf", "\xc0", "\xc1", "\xc2", "\xe0", "\xe0\x80", "\xed\xa0\x80", "\xef\xbb\xbf", "\xf0", "\xf4\x90", "\xf5", "\xff",
                                                       "//", "/*", "'", "NaN", "Infinity", ",,", "[]", "{}", "\"\"", "1e999", "\\x", "\\/", "\xc2\xa0", std::string( 1, '\0' ) };
        int times = r.chance( 3, 4 ) ? 1 : r.range( 2, 4 );
        for ( int t = 0; t < times; t++ )
        {
            size_t n = s.size();
            size_t i = n ? r.below( uint32_t( n + 1 ) ) : 0;
            switch ( r.below( 9 ) )
            {
                case 0: if ( i < n ) s.erase( i, 1 ); break;
                case 1: s.insert( i, 1, char( r.below( 256 ) ) ); break;
                case 2: if ( i < n ) s[ i ] = char( r.below( 256 ) ); break;
                case 3: s.insert( i, r.pick( bits ) ); break;
                case 4: s.resize( i ); break;
                case 5: if ( i < n ) { size_t l = r.below( uint32_t( n - i ) < 12 ? uint32_t( n - i ) : 12 ) + 1; s.erase( i, l ); } break;
                case 6: if ( i < n ) { size_t l = r.below( uint32_t( n - i ) < 20 ? uint32_t( n - i ) : 20 ) + 1; s.insert( r.below( uint32_t( n ) ), s.substr( i, l ) ); } break;
                case 7: if ( i + 1 < n ) std::swap( s[ i ], s[ i + 1 ] ); break;
                case 8:
                {
                    // damage at a structural character
                    static const std::string marks = "{}[]:,\"\\.eE-0";
                    std::vector<size_t> at;
                    for ( size_t k = 0; k < n; k++ ) if ( marks.find( s[ k ] ) != std::string::npos ) at.push_back( k );
                    if ( at.empty() ) break;
                    size_t k = r.pick( at );
                    if ( r.chance( 1, 2 ) ) s[ k ] = marks[ r.below( uint32_t( marks.size() ) ) ];
                    else s.erase( k, 1 );
                    break;
                }
            }
        }
        return s;
    }

    inline std::string nested( Rng& r, int depth, int style, bool closed )
    {
        std::string o, c;
        for ( int i = 0; i < depth; i++ )
        {
            bool obj = style == 1 || ( style == 2 && i % 2 ) || ( style == 3 && r.chance( 1, 2 ) );
            if ( obj ) { o += "{\"a\":"; c += '}'; }
            else { o += '['; c += ']'; }
        }
        if ( !closed ) return o;
        o += depth && style == 0 ? "" : "1";
        for ( size_t i = c.size(); i-- > 0; ) o += c[ i ];
        return o;
    }
} // namespace gen
