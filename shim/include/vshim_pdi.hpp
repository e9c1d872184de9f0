// What the PDI stand-in observed.
#pragma once
#include <map>
#include <string>
#include <vector>

namespace vshim {
struct PdiTransfer
{
    bool write;
    int rank;
    std::string event, file, dataset, data;
    std::vector<long> start, size; // selection in the dataset
};
struct PdiLog
{
    std::vector<PdiTransfer> transfers;
    std::vector<std::string> warnings; // data not available, unused plugin features
    std::map<std::string, int> file_generation; // number of times a file was (re)created
    long events = 0;
    int open_handles_at_finalize = 0;
};
PdiLog& pdi_log();
void pdi_reset();
} // namespace vshim
