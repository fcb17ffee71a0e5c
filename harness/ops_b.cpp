#include "ops.h"
using namespace types;
VF_TYPE( Plain )
VF_TYPE( MemberStyle )
VF_TYPE( Choice )
VF_TYPE( Joined )
VF_TYPE( Pair )
VF_TYPE( Array<Plain> )
VF_TYPE( Array<Pair> )
VF_TYPE( Array<Array<Array<String<>>>> )
VF_TYPE( Light )
