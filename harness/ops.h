// One interface over all user types, so that the typed monitors are written once.
#pragma once

#include "types.h"

#include <memory>

namespace ops
{
    using namespace lib;
    using types::Statuses;
    using Obj = std::shared_ptr<void>;

    struct Ops
    {
        std::string name;
        virtual ~Ops() {}
        virtual Obj       fresh() const                                    = 0;
        virtual Obj       make( vf::Rng& r ) const                         = 0;
        virtual bool      eq( const Obj& a, const Obj& b ) const           = 0;
        virtual ref::Node node( const Obj& a ) const                       = 0;
        virtual void      verdict( const ref::Node& n, Statuses& s ) const = 0;
        virtual void      load( const ref::Node& n, const Obj& a ) const   = 0;
        virtual void      update( const ref::Node& n, const Obj& a ) const = 0;
        virtual Status    serialize( StructuredData& d, const Obj& a ) const       = 0;
        virtual Status    deserialize( StructuredData& d, const Obj& a ) const     = 0;
        virtual Status    validate( const StructuredData& d, const Obj& a ) const  = 0;
        // under a name of an object
        virtual Status    serializeNamed( Value* v, const char* n, const Obj& a ) const         = 0;
        virtual Status    deserializeNamed( const Value* v, const char* n, const Obj& a ) const = 0;
        virtual Status    validateNamed( const Value* v, const char* n, const Obj& a ) const    = 0;
        // into and out of a value that is there; for the types that stand for one value as a whole
        virtual bool      whole() const                                         = 0;
        virtual Status    serializeInto( Value* v, const Obj& a ) const         = 0;
        virtual Status    deserializeFrom( const Value* v, const Obj& a ) const = 0;
        virtual Status    validateAt( const Value* v, const Obj& a ) const      = 0;
    };

    std::vector<std::unique_ptr<Ops>>& all();

    template <class T> struct OpsT : Ops
    {
        static T&       get( const Obj& a ) { return *static_cast<T*>( a.get() ); }
        Obj             fresh() const override { return std::shared_ptr<T>( new T {} ); }
        Obj             make( vf::Rng& r ) const override { Obj a = fresh(); types::Model<T>::make( r, get( a ) ); return a; }
        bool            eq( const Obj& a, const Obj& b ) const override { return types::Model<T>::eq( get( a ), get( b ) ); }
        ref::Node       node( const Obj& a ) const override { return types::Model<T>::node( get( a ) ); }
        void            verdict( const ref::Node& n, Statuses& s ) const override { types::Model<T>::verdict( n, s ); }
        void            load( const ref::Node& n, const Obj& a ) const override { types::Model<T>::load( n, get( a ) ); }
        void            update( const ref::Node& n, const Obj& a ) const override { types::Update<T>::go( n, get( a ) ); }
        Status          serialize( StructuredData& d, const Obj& a ) const override { const T& t = get( a ); return d.SerializeFrom( t ); }
        Status          deserialize( StructuredData& d, const Obj& a ) const override { return d.DeserializeTo( get( a ) ); }
        Status          validate( const StructuredData& d, const Obj& a ) const override { const T& t = get( a ); return C4::Json::Validate( d, t ); }
        Status          serializeNamed( Value* v, const char* n, const Obj& a ) const override { const T& t = get( a ); return C4::Json::SerializeProto( v, n, t ); }
        Status          deserializeNamed( const Value* v, const char* n, const Obj& a ) const override { return C4::Json::DeserializeProto( v, n, get( a ) ); }
        Status          validateNamed( const Value* v, const char* n, const Obj& a ) const override { const T& t = get( a ); return C4::Json::ValidateProto( v, n, t ); }
        static constexpr bool kWhole = !types::HasFields<T>::value && !std::is_same<T, types::Pair>::value;
        bool            whole() const override { return kWhole; }
        Status          serializeInto( [[maybe_unused]] Value* v, [[maybe_unused]] const Obj& a ) const override
        {
            if constexpr ( kWhole ) { const T& t = get( a ); return C4::Json::Serialize( v, t ); }
            else vf::harnessError( name + " stands for no whole value" );
        }
        Status deserializeFrom( [[maybe_unused]] const Value* v, [[maybe_unused]] const Obj& a ) const override
        {
            if constexpr ( kWhole ) return C4::Json::Deserialize( v, get( a ) );
            else vf::harnessError( name + " stands for no whole value" );
        }
        Status validateAt( [[maybe_unused]] const Value* v, [[maybe_unused]] const Obj& a ) const override
        {
            if constexpr ( kWhole ) { const T& t = get( a ); return C4::Json::Validate( v, t ); }
            else vf::harnessError( name + " stands for no whole value" );
        }
    };

    template <class T> struct Register
    {
        explicit Register( const char* n ) { auto* o = new OpsT<T>; o->name = n; all().emplace_back( o ); }
    };
#define VF_CAT2( a, b ) a##b
#define VF_CAT( a, b ) VF_CAT2( a, b )
#define VF_TYPE( ... ) static ops::Register<__VA_ARGS__> VF_CAT( reg, __LINE__ )( #__VA_ARGS__ );
} // namespace ops
