// The library as seen through its public interface, compared with the reference tree.
#pragma once

#include "C4Json.h"
#include "common.h"
#include "refjson.h"

#include <cstring>
#include <set>

#if defined( __has_feature )
#    if __has_feature( address_sanitizer )
#        define VF_ASAN 1
#    endif
#endif
#if defined( __SANITIZE_ADDRESS__ )
#    define VF_ASAN 1
#endif
#ifdef VF_ASAN
#    include <sanitizer/asan_interface.h>
#    include <sanitizer/allocator_interface.h>
#endif

namespace lib
{
    using namespace C4::Json;
    using Terathon::Array;
    using Terathon::String;
    using Terathon::int32;
    using Terathon::uint32;
    using Terathon::uint64;

    inline const char* statusName( Status s )
    {
        static const char* const n[] = { "kOk", "KFileOpenError", "KFileReadError", "KFileTooLarge", "kTextBufferContentsInvalid", "kUnterminatedTextBuffer", "kExpectedOpeningCurlyBraces", "kExpectedClosingCurlyBracesOrComma", "kExpectedOpeningSquareBrackets", "kExpectedClosingSquareBracketsOrComma",
                                         "kStringIllegalChar", "kStringIllegalEscape", "kExpectedColon", "kExpectedBeginingDoubleQuotes", "kExpectedEndingDoubleQuotes", "kFloatInvalid", "kExpectedTrueOrFalse", "kExpectedNull", "kExpectedJsonValue", "kExpectedEndOfFile", "kPrematureNullTerminator",
                                         "kNumbersCannotHaveLeadingZeros", "kInvalidStructuredData", "kMissingObjectElement", "kException", "kInvalidValueType", "kNameNotPresent", "kNestingTooDeep", "KFileWriteError" };
        unsigned i = unsigned( s );
        return i < sizeof n / sizeof *n ? n[ i ] : "(unknown status)";
    }

    // A text buffer with nothing readable behind its terminator.
    struct Buffer
    {
        Array<char> a;
        size_t poisoned = 0;
        explicit Buffer( const std::string& s )
        {
            a.ReserveArrayElementCount( int32( s.size() + 1 ) );
            a.SetArrayElementCount( int32( s.size() + 1 ), char( 0 ) );
            if ( !s.empty() ) memcpy( a.begin(), s.data(), s.size() );
#ifdef VF_ASAN
            size_t have = __sanitizer_get_allocated_size( a.begin() );
            if ( have > s.size() + 1 )
            {
                poisoned = have - s.size() - 1;
                ASAN_POISON_MEMORY_REGION( a.begin() + s.size() + 1, poisoned );
            }
#endif
        }
        ~Buffer()
        {
#ifdef VF_ASAN
            if ( poisoned ) ASAN_UNPOISON_MEMORY_REGION( a.end(), poisoned );
#endif
        }
        Buffer( const Buffer& ) = delete;
    };

    inline ParseResult parse( StructuredData& d, const std::string& s )
    {
        Buffer b( s );
        return d.Parse( b.a );
    }

    inline const char* cstr( const String<>& s ) { return s; }
    inline std::string str( const String<>& s ) { return std::string( static_cast<const char*>( s ) ); }

    inline uint64_t bits( double d ) { uint64_t u; memcpy( &u, &d, 8 ); return u; }
    inline bool same( double a, double b ) { return bits( a ) == bits( b ) || ( a != a && b != b ); }
    inline std::string dbl( double d ) { char b[ 64 ]; snprintf( b, sizeof b, "%.17g", d ); return b; }

    // Kind of a value; -1 (and a message) when its accessors do not name exactly one kind.
    inline int kindOf( const Value* v, std::string& err )
    {
        int k = -1, n = 0;
        auto test = [ & ]( int kind, const void* c, const void* m ) {
            if ( c != m ) err = "const and non-const accessor disagree on kind " + std::to_string( kind );
            if ( c ) { k = kind; n++; }
        };
        Value* m = const_cast<Value*>( v );
        test( ref::kString, v->GetDataAsPointerTo<String<>>(), m->GetDataAsPointerTo<String<>>() );
        test( ref::kNumber, v->GetDataAsPointerTo<double>(), m->GetDataAsPointerTo<double>() );
        test( ref::kBool, v->GetDataAsPointerTo<bool>(), m->GetDataAsPointerTo<bool>() );
        test( ref::kNull, v->GetDataAsPointerTo<Null>(), m->GetDataAsPointerTo<Null>() );
        test( ref::kArray, v->GetDataAsPointerTo<Array<Value*>>(), m->GetDataAsPointerTo<Array<Value*>>() );
        test( ref::kObject, v->AsJsonObjectValue(), m->AsJsonObjectValue() );
        if ( n != 1 ) { err = "value reports " + std::to_string( n ) + " kinds"; return -1; }
        if ( !err.empty() ) return -1;
        return k;
    }

    inline const char* kindName( int k )
    {
        static const char* const n[] = { "string", "number", "boolean", "null", "array", "object" };
        return k >= 0 && k < 6 ? n[ k ] : "?";
    }

    // Compares a library value with the reference; returns "" or what differs. visited counts values seen.
    inline std::string compare( const Value* v, const ref::Node& n, uint64_t& visited, bool lookups = true )
    {
        visited++;
        std::string err;
        int k = kindOf( v, err );
        if ( k < 0 ) return err;
        if ( k != n.kind ) return std::string( "kind is " ) + kindName( k ) + ", text denotes " + kindName( n.kind );
        switch ( n.kind )
        {
            case ref::kString:
            {
                const String<>& s = *v->GetDataAsPointerTo<String<>>();
                std::string t = str( s );
                if ( t != n.text ) return "string is '" + vf::shown( t ) + "', text denotes '" + vf::shown( n.text ) + "'";
                if ( s.GetStringLength() != int32( n.text.size() ) ) return "string length is " + std::to_string( s.GetStringLength() ) + " for " + std::to_string( n.text.size() ) + " bytes";
                return "";
            }
            case ref::kNumber:
            {
                double d = *v->GetDataAsPointerTo<double>();
                if ( !same( d, n.number ) ) return "number " + n.text + " is " + dbl( d ) + ", not " + dbl( n.number );
                return "";
            }
            case ref::kBool:
                if ( *v->GetDataAsPointerTo<bool>() != n.flag ) return "boolean has the wrong value";
                return "";
            case ref::kNull: return "";
            case ref::kArray:
            {
                const Array<Value*>& a = *v->GetDataAsPointerTo<Array<Value*>>();
                if ( size_t( a.GetArrayElementCount() ) != n.items.size() ) return "array has " + std::to_string( a.GetArrayElementCount() ) + " elements, not " + std::to_string( n.items.size() );
                for ( size_t i = 0; i < n.items.size(); i++ )
                {
                    const Value* e = a[ int32( i ) ];
                    if ( !e ) return "array element is null pointer";
                    std::string x = compare( e, n.items[ i ], visited, lookups );
                    if ( !x.empty() ) return "[" + std::to_string( i ) + "] " + x;
                }
                return "";
            }
            case ref::kObject:
            {
                const ObjectValue* o = v->AsJsonObjectValue();
                std::vector<const ref::Member*> sorted;
                for ( auto& m : n.members ) sorted.push_back( &m );
                std::sort( sorted.begin(), sorted.end(), []( auto* a, auto* b ) { return a->first < b->first; } );
                if ( size_t( o->GetMapElementCount() ) != sorted.size() ) return "object has " + std::to_string( o->GetMapElementCount() ) + " names, not " + std::to_string( sorted.size() );
                // every element once, in some order
                std::set<std::string> seen;
                size_t steps = 0;
                for ( const Value* e : *o )
                {
                    if ( ++steps > sorted.size() ) return "iteration visits more elements than the object has";
                    std::string name = str( e->name );
                    if ( e->name.GetStringLength() != int32( name.size() ) ) return "name length is wrong";
                    if ( !seen.insert( name ).second ) return "iteration visits '" + vf::shown( name ) + "' twice";
                    auto it = std::lower_bound( sorted.begin(), sorted.end(), name, []( auto* a, const std::string& b ) { return a->first < b; } );
                    if ( it == sorted.end() || ( *it )->first != name ) return "name '" + vf::shown( name ) + "' is not in the text";
                    std::string x = compare( e, ( *it )->second, visited, lookups );
                    if ( !x.empty() ) return "." + vf::shown( name, 30 ) + " " + x;
                    if ( lookups && o->FindMapElement( name.c_str() ) != e ) return "lookup of '" + vf::shown( name ) + "' does not find its value";
                }
                if ( steps != sorted.size() ) return "iteration visits " + std::to_string( steps ) + " of " + std::to_string( sorted.size() ) + " elements";
                return "";
            }
        }
        return "";
    }

    // Two reference trees; names in the same order.
    inline std::string compare( const ref::Node& a, const ref::Node& b, bool order = true )
    {
        if ( a.kind != b.kind ) return std::string( "kind is " ) + kindName( a.kind ) + ", should be " + kindName( b.kind );
        switch ( a.kind )
        {
            case ref::kString: return a.text == b.text ? "" : "string is '" + vf::shown( a.text ) + "', should be '" + vf::shown( b.text ) + "'";
            case ref::kNumber: return same( a.number, b.number ) ? "" : "number is " + dbl( a.number ) + ", should be " + dbl( b.number );
            case ref::kBool: return a.flag == b.flag ? "" : "boolean differs";
            case ref::kNull: return "";
            case ref::kArray:
                if ( a.items.size() != b.items.size() ) return "array has " + std::to_string( a.items.size() ) + " elements, should have " + std::to_string( b.items.size() );
                for ( size_t i = 0; i < a.items.size(); i++ )
                {
                    std::string x = compare( a.items[ i ], b.items[ i ], order );
                    if ( !x.empty() ) return "[" + std::to_string( i ) + "] " + x;
                }
                return "";
            case ref::kObject:
            {
                if ( a.members.size() != b.members.size() ) return "object has " + std::to_string( a.members.size() ) + " names, should have " + std::to_string( b.members.size() );
                std::vector<size_t> ia( a.members.size() ), ib( b.members.size() );
                for ( size_t i = 0; i < ia.size(); i++ ) ia[ i ] = ib[ i ] = i;
                if ( !order )
                {
                    std::sort( ia.begin(), ia.end(), [ & ]( size_t x, size_t y ) { return a.members[ x ].first < a.members[ y ].first; } );
                    std::sort( ib.begin(), ib.end(), [ & ]( size_t x, size_t y ) { return b.members[ x ].first < b.members[ y ].first; } );
                }
                for ( size_t i = 0; i < ia.size(); i++ )
                {
                    auto &x = a.members[ ia[ i ] ], &y = b.members[ ib[ i ] ];
                    if ( x.first != y.first ) return "name '" + vf::shown( x.first ) + "' stands where '" + vf::shown( y.first ) + "' should";
                    std::string e = compare( x.second, y.second, order );
                    if ( !e.empty() ) return "." + vf::shown( x.first, 30 ) + " " + e;
                }
                return "";
            }
        }
        return "";
    }

    // The document as a reference tree (names in map order).
    inline ref::Node snapshot( const Value* v )
    {
        ref::Node n;
        std::string err;
        int k = kindOf( v, err );
        if ( k < 0 ) { n.text = err; return n; }
        n.kind = ref::Kind( k );
        switch ( k )
        {
            case ref::kString: n.text = str( *v->GetDataAsPointerTo<String<>>() ); break;
            case ref::kNumber: n.number = *v->GetDataAsPointerTo<double>(); break;
            case ref::kBool: n.flag = *v->GetDataAsPointerTo<bool>(); break;
            case ref::kArray:
                for ( const Value* e : *v->GetDataAsPointerTo<Array<Value*>>() ) n.items.push_back( snapshot( e ) );
                break;
            case ref::kObject:
                for ( const Value* e : *v->AsJsonObjectValue() ) n.members.emplace_back( str( e->name ), snapshot( e ) );
                break;
            default: break;
        }
        return n;
    }

    inline int openFds()
    {
        int n = 0;
        for ( int fd = 0; fd < 256; fd++ ) if ( fcntl( fd, F_GETFD ) != -1 ) n++;
        return n;
    }

    // Line and column of an offset.
    inline std::pair<int, int> place( const std::string& s, size_t at )
    {
        int line = 1, col = 1;
        for ( size_t i = 0; i < at && i < s.size(); i++ )
        {
            if ( s[ i ] == '\n' ) { line++; col = 1; }
            else col++;
        }
        return { line, col };
    }
} // namespace lib
