#include "zoo.hpp"
namespace zoo { thread_local How* how = nullptr; std::vector<Kind*>& kinds() { static std::vector<Kind*> k; return k; } }
