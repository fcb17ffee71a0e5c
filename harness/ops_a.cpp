#include "ops.h"
using namespace types;
VF_TYPE( String<> )
VF_TYPE( double )
VF_TYPE( bool )
VF_TYPE( Null )
VF_TYPE( Array<String<>> )
VF_TYPE( Array<double> )
VF_TYPE( Array<bool> )
VF_TYPE( Array<Null> )
VF_TYPE( Array<Array<double>> )
VF_TYPE( ObjectMap<String<>> )
VF_TYPE( ObjectMap<double> )
VF_TYPE( ObjectMap<bool> )
VF_TYPE( ObjectMap<Null> )
VF_TYPE( ObjectMap<ObjectMap<String<>>> )
VF_TYPE( ObjectMap<Array<double>> )

