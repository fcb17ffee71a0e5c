#include "ops.h"
using namespace types;
VF_TYPE( Fragile )
VF_TYPE( FragileFree )
VF_TYPE( Array<Fragile> )
VF_TYPE( Array<FragileFree> )
VF_TYPE( ObjectMap<Fragile> )
VF_TYPE( ObjectMap<FragileFree> )
VF_TYPE( ObjectMap<Array<Fragile>> )
VF_TYPE( std::vector<Fragile> )
VF_TYPE( std::vector<FragileFree> )
VF_TYPE( std::map<std::string, Fragile> )
VF_TYPE( std::map<std::string, FragileFree> )
VF_TYPE( Copied )
VF_TYPE( Array<Copied> )
VF_TYPE( ObjectMap<Copied> )
VF_TYPE( std::vector<Copied> )
VF_TYPE( std::map<std::string, Array<Copied>> )
