namespace pbt { int mainExplore(int, char**); }
int main(int argc, char** argv) { return pbt::mainExplore(argc, argv); }
