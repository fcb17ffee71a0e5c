#include "ops.h"
using namespace types;
VF_TYPE( Std )
VF_TYPE( std::vector<Plain> )
VF_TYPE( std::vector<MemberStyle> )
VF_TYPE( std::vector<Light> )
VF_TYPE( std::map<std::string, MemberStyle> )
VF_TYPE( std::map<std::string, Choice> )
VF_TYPE( Array<std::vector<Plain>> )
VF_TYPE( ObjectMap<std::map<std::string, std::string>> )
