#include <vmc.hpp>
#include <cstring>
int mode = 17; void pinholeA(); void pinholeB(); void omniA(); void omniB(); void other();
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--mode")) mode = atoi(argv[i + 1]);
  vmc::init(argc, argv); pinholeA(); pinholeB(); omniA(); omniB(); other(); return vmc::finish();
}
