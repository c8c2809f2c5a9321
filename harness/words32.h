// A build of the integer classes with 32-bit words, which the library selects on other processors: the system
// headers are read first, then the macro the library looks at is taken away.
#include <vector>
#include <string>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <stdexcept>
#include <algorithm>
#include <iostream>
#include <functional>
#include <memory>
#include <limits>
#include <map>
#include <set>
#include <cstdint>
#include <cmath>
#include <unistd.h>
#include <gmpxx.h>
#include <cstddef>
#include <csignal>
#undef __x86_64__
