#include "ops.h"
using namespace types;
VF_TYPE( std::string )
VF_TYPE( std::vector<std::string> )
VF_TYPE( std::vector<double> )
VF_TYPE( std::vector<bool> )
VF_TYPE( std::vector<Null> )
VF_TYPE( std::vector<std::vector<std::string>> )
VF_TYPE( std::map<std::string, std::string> )
VF_TYPE( std::map<std::string, double> )
VF_TYPE( std::map<std::string, bool> )
VF_TYPE( std::map<std::string, Null> )
VF_TYPE( std::map<std::string, std::vector<std::string>> )
VF_TYPE( std::vector<std::map<std::string, bool>> )
