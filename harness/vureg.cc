// sst-register and sst-config with an install prefix of "." (the scratch directory they are run in)
#include "sst_config.h"
#undef SST_INSTALL_PREFIX
#define SST_INSTALL_PREFIX "."
#define main reg_main
#include "sst/core/sstregistertool.cc"
#undef main
#define main cfg_main
#include "sst/core/sstconfigtool.cc"
#undef main
#include "sst/core/env/envconfig.cc"
#include "sst/core/env/envquery.cc"
static_assert(sizeof(SST_INSTALL_PREFIX) == 2, "the installed configuration is never touched");
extern "C" int run_tool(int which, int argc, char** argv) { int rc = which ? cfg_main(argc, argv) : reg_main(argc, argv); fflush(stdout); exit(rc); }
