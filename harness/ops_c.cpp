#include "ops.h"
using namespace types;
VF_TYPE( Deep )
VF_TYPE( Array<MemberStyle> )
VF_TYPE( Array<Light> )
VF_TYPE( ObjectMap<Plain> )
VF_TYPE( ObjectMap<Choice> )
VF_TYPE( ObjectMap<MemberStyle> )
