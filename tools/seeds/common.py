import sys; sys.path.insert(0,'/tmp')
from seed import seed
C='''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
#include <utility>
#define CHECK(x) do { if (!(x)) { printf("failed: %s\\n", #x); exit(1); } } while (0)
'''
which=sys.argv[1:]
def s(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
