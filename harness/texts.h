// The texts all text monitors are fed with.
#pragma once

#include "gen.h"

namespace texts
{
    using vf::Rng;
    using Sink = std::function<void( const std::string&, Rng& )>;

    struct Sizes
    {
        int tokens = 5, digits = 6, chars = 4; // lengths of the exhaustive enumerations
        double valid = 20000, mutants = 40000, garbage = 4000;
        bool strings = true, pairs3 = true;
        bool deep = true, big = true;
    };

    // i-th sequence (of any length up to max) over an alphabet
    inline bool sequence( uint64_t i, const std::vector<std::string>& alphabet, int max, std::string& out )
    {
        uint64_t n = alphabet.size(), block = 1;
        for ( int len = 0; len <= max; len++, block *= n )
        {
            if ( i < block )
            {
                out.clear();
                for ( int k = 0; k < len; k++ ) { out += alphabet[ i % n ]; i /= n; }
                return true;
            }
            i -= block;
        }
        return false;
    }

    inline uint64_t sequences( uint64_t n, int max )
    {
        uint64_t t = 0, b = 1;
        for ( int l = 0; l <= max; l++, b *= n ) t += b;
        return t;
    }

    inline void all( const Sizes& z, const Sink& sink )
    {
        // 1. every short sequence of tokens
        static const std::vector<std::string> tokens = { "{", "}", "[", "]", ":", ",", "\"a\"", "\"b\"", "1", "-", "null", "true", " ", "0" };
        vf::stream( "tokens", sequences( tokens.size(), z.tokens ), [ & ]( uint64_t i, Rng& r ) {
            std::string s;
            sequence( i, tokens, z.tokens, s );
            sink( s, r );
        } );
        // the same inside a container that makes more of them meaningful
        vf::stream( "tokens-in", sequences( tokens.size(), z.tokens - 1 ) * 3, [ & ]( uint64_t i, Rng& r ) {
            std::string s;
            sequence( i / 3, tokens, z.tokens - 1, s );
            sink( i % 3 == 0 ? "[1," + s + "]" : i % 3 == 1 ? "{\"x\":1," + s + "}" : "{\"x\":[" + s + "],\"y\":\n2}", r );
        } );
        // 2. every short string over the number alphabet, in three contexts
        static const std::vector<std::string> digits = { "0", "1", "9", "-", "+", ".", "e", "E" };
        vf::stream( "numbers", sequences( digits.size(), z.digits ) * 3, [ & ]( uint64_t i, Rng& r ) {
            std::string s;
            sequence( i / 3, digits, z.digits, s );
            sink( i % 3 == 0 ? s : i % 3 == 1 ? "[" + s + "]" : "{\"a\":" + s + " }", r );
        } );
        // 3. short strings over characters that matter to the scanner
        static const std::vector<std::string> chars = { "\"", "\\", "u", "0", "d", "8", "n", "/", "\xc3", "\x80", "\n", "]", ",", "\x1f", "x" };
        vf::stream( "chars", sequences( chars.size(), z.chars ) * 2, [ & ]( uint64_t i, Rng& r ) {
            std::string s;
            sequence( i / 2, chars, z.chars, s );
            sink( i % 2 ? "[\"" + s + "\"]" : "\"" + s, r );
        } );
        if ( z.strings )
        {
            // 4. every byte and every pair of bytes in a string, every escape letter
            vf::stream( "bytes", 256, [ & ]( uint64_t i, Rng& r ) {
                std::string b( 1, char( i ) );
                sink( "\"" + b + "\"", r );
                sink( "\"ab" + b + "cd\"", r );
                sink( "{\"" + b + "\":1}", r );
                sink( "\"\\" + b + "\"", r );
                sink( "\"\\" + b, r );
                sink( "\"\\u" + b, r );
                sink( b, r );
                sink( b + "1", r );
                sink( "1" + b, r );
                sink( "[1" + b + "]", r );
                sink( "[1," + b + "2]", r );
                sink( "[1 " + b + ",2]", r );
                sink( "{" + b + "\"a\":1}", r );
                sink( "{\"a\"" + b + ":1}", r );
                sink( "{\"a\":" + b + "1}", r );
                sink( "{\"a\":1" + b + "}", r );
                sink( "tru" + b, r );
                sink( "fals" + b, r );
                sink( "nul" + b, r );
                sink( "true" + b, r );
                sink( "null" + b + " ", r );
                for ( size_t k = 0; k < 5; k++ ) { std::string w = "false"; w[ k ] = char( i ); sink( w, r ); w = "[false]"; w[ k + 1 ] = char( i ); sink( w, r ); }
                for ( size_t k = 0; k < 4; k++ ) { std::string w = "true"; w[ k ] = char( i ); sink( w, r ); w = "null"; w[ k ] = char( i ); sink( w, r ); }
                for ( size_t k = 0; k < 4; k++ ) { std::string w = "\"\\u12ab\""; w[ k + 3 ] = char( i ); sink( w, r ); w = "\"\\ud83d\\udE0a\""; w[ k + 9 ] = char( i ); sink( w, r ); w[ k + 9 ] = 'd'; w[ k + 3 ] = char( i ); sink( w, r ); }
            } );
            vf::stream( "bytepairs", 128, [ & ]( uint64_t i, Rng& r ) {
                for ( int k = 0; k < 256; k++ ) sink( std::string( "\"" ) + char( 0x80 + i ) + char( k ) + "\"", r );
            } );
            vf::stream( "bytetriples", z.pairs3 ? 32 : 0, [ & ]( uint64_t i, Rng& r ) {
                static const int third[] = { 0, 0x20, 0x22, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFF };
                for ( int b = 0; b < 256; b++ )
                    for ( int c : third )
                    {
                        std::string t;
                        t += char( 0xE0 + i );
                        t += char( b );
                        t += char( c );
                        if ( i >= 0x10 ) { sink( "\"" + t + "\"", r ); sink( "\"" + t + "\x80\"", r ); sink( "\"" + t + "\xBF\"", r ); sink( "\"" + t + "\x7F\"", r ); sink( "\"" + t + "\xC0\"", r ); }
                        else sink( "\"" + t + "\"", r );
                    }
            } );
            // 5. every \u escape
            vf::stream( "escapes", 256, [ & ]( uint64_t i, Rng& r ) {
                for ( uint32_t k = 0; k < 256; k++ )
                {
                    std::string s = "\"\\u";
                    gen::hex4( r, s, uint32_t( i ) * 256 + k );
                    sink( s + "\"", r );
                    if ( k % 16 == 0 ) sink( "\"xyz\\u0041" + s.substr( 1 ) + "w\"", r );
                }
            } );
            // pairs: all high halves with edge lows, all low halves with edge highs
            vf::stream( "pairs", 1024, [ & ]( uint64_t i, Rng& r ) {
                static const uint32_t edge[] = { 0, 1, 0x3FE, 0x3FF, 0x155 };
                for ( uint32_t e : edge )
                    for ( int side = 0; side < 2; side++ )
                    {
                        std::string s = "[\"\\u";
                        gen::hex4( r, s, 0xD800 + ( side ? e : uint32_t( i ) ) );
                        s += "\\u";
                        gen::hex4( r, s, 0xDC00 + ( side ? uint32_t( i ) : e ) );
                        sink( s + "\"]", r );
                    }
                std::string s = "\"\\u";
                gen::hex4( r, s, 0xD800 + uint32_t( i ) );
                s += "\\u";
                gen::hex4( r, s, uint32_t( r.below( 0x10000 ) ) );
                sink( s + "\"", r );
                sink( s + "\\udc00\"", r );
            } );
            // 6. every length of string and name around the storage boundaries
            vf::stream( "lengths", 400, [ & ]( uint64_t i, Rng& r ) {
                size_t n = size_t( i );
                std::string x( n, 'x' );
                sink( "\"" + x + "\"", r );
                sink( "{\"" + x + "\":\"" + x + "\"}", r );
                sink( "[\"" + x + "\\n\",\"" + x + "\\u00e9\",\"" + x + "\xe2\x82\xac\",\"\\ud83d\\ude00" + x + "\"]", r );
                std::string y, z2;
                for ( size_t k = 0; k < n; k++ ) { y += "\\u0416"; z2 += "\\\""; }
                sink( "[\"" + y + "\",\"" + z2 + "\"]", r );
                sink( std::string( n, ' ' ) + "1" + std::string( n, '\n' ), r );
                sink( "\"" + x, r );
                sink( "\"" + x + "\\", r );
                sink( "[" + std::string( n, '9' ) + "]", r );
                sink( "[0." + std::string( n, '3' ) + "," + std::string( n, '7' ) + "e-" + std::to_string( n ) + "]", n ? r : r );
                std::string a = "[";
                for ( size_t k = 0; k < n; k++ ) a += ( k ? "," : "" ) + std::to_string( k );
                sink( a + "]", r );
                sink( a, r );
                std::string o = "{";
                for ( size_t k = 0; k < n; k++ ) o += ( k ? ",\"" : "\"" ) + std::to_string( k * 7919 % 1009 ) + "\":" + std::to_string( k );
                sink( o + "}", r );
                sink( o, r );
            } );
        }
        // 7. nesting
        if ( z.deep )
        {
            vf::stream( "nesting", 520, [ & ]( uint64_t i, Rng& r ) {
                for ( int style = 0; style < 4; style++ )
                {
                    std::string s = gen::nested( r, int( i ) + 1, style, true );
                    sink( s, r );
                    sink( gen::nested( r, int( i ) + 1, style, false ), r );
                    s.pop_back();
                    if ( i % 8 == 0 ) sink( s, r );
                    if ( i % 8 == 1 ) sink( s + "]", r );
                    if ( i % 8 == 2 ) sink( "[" + s + "},1]", r );
                }
            } );
        }
        // 8. large objects and arrays, every order
        if ( z.big )
            vf::stream( "bigobjects", 64, [ & ]( uint64_t i, Rng& r ) {
                int n = int( 5 + ( i / 4 ) * 23 );
                sink( gen::bigObject( r, n, int( i % 4 ) ), r );
            } );
        // 9. random documents and damage to them
        vf::stream( "valid", vf::scaled( z.valid ), [ & ]( uint64_t i, Rng& r ) {
            gen::Opt o;
            if ( i % 16 == 0 ) { o.budget = 400; o.maxDepth = 12; }
            if ( i % 16 == 1 ) { o.budget = 5; o.maxDepth = 2; }
            sink( gen::document( r, o ), r );
        } );
        vf::stream( "mutants", vf::scaled( z.mutants ), [ & ]( uint64_t i, Rng& r ) {
            gen::Opt o;
            o.budget = i % 8 ? 12 : 60;
            o.lone = i % 5 == 0;
            o.longText = i % 3 == 0;
            sink( gen::mutate( r, gen::document( r, o ) ), r );
        } );
        vf::stream( "garbage", vf::scaled( z.garbage ), [ & ]( uint64_t i, Rng& r ) {
            if ( i % 2 ) { sink( gen::bytes( r, r.range( 1, 40 ) ), r ); return; }
            std::string s;
            static const std::string soup = "{}[]:,\"\\ \n0123456789eE+-.truefalsn/u";
            int n = r.range( 1, 40 );
            for ( int k = 0; k < n; k++ ) s += soup[ r.below( uint32_t( soup.size() ) ) ];
            sink( s, r );
        } );
        // 10. every truncation of some documents
        vf::stream( "truncations", vf::scaled( z.valid / 100 ), [ & ]( uint64_t, Rng& r ) {
            gen::Opt o;
            o.budget = 15;
            o.lone = true;
            std::string s = gen::document( r, o );
            for ( size_t k = 0; k <= s.size() && k < 600; k++ ) sink( s.substr( 0, k ), r );
        } );
    }
} // namespace texts
