#include "props.h"

int main(int argc, char** argv)
{
    std::vector<pbt::Property> v;
    addDumpProps(v);
    addGdbLogProps(v);
    addElfProps(v);
    addMemProps(v);
    addCliProps(v);
    addPlatformProps(v);
    addCommProps(v);
    addSessionProps(v);
    addFaultProps(v);
    addLibProps(v);
    return pbt::run(argc, argv, v);
}
