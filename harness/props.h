#ifndef PROPS_H_
#define PROPS_H_
#include "pbt.h"
void addDumpProps(std::vector<pbt::Property>& v);
void addGdbLogProps(std::vector<pbt::Property>& v);
void addElfProps(std::vector<pbt::Property>& v);
void addMemProps(std::vector<pbt::Property>& v);
void addCliProps(std::vector<pbt::Property>& v);
void addPlatformProps(std::vector<pbt::Property>& v);
void addCommProps(std::vector<pbt::Property>& v);
void addSessionProps(std::vector<pbt::Property>& v);
void addFaultProps(std::vector<pbt::Property>& v);
void addLibProps(std::vector<pbt::Property>& v);
void addMocksProps(std::vector<pbt::Property>& v);
#endif
