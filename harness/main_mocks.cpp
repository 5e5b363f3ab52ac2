#include "props.h"

int main(int argc, char** argv)
{
    std::vector<pbt::Property> v;
    addMocksProps(v);
    return pbt::run(argc, argv, v);
}
