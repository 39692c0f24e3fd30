#include "git-version.h"
namespace securefs { const char* const GIT_VERSION = "verif"; }
