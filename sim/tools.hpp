// Entry points of the repository's command line tools, as the simulator
// builds them (main renamed by objcopy).
#pragma once
extern "C" {
int addattrs_main(int, const char **);
int dfcmplt_main(int, const char **);
int pathattrs_main(int, const char **);
int pathfor_main(int, const char **);
int bestwt_main(int, const char **);
int scenario2rdb_main(int, const char **);
int withattrs_main(int, const char **);
}
