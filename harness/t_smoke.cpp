#include <vcase.hpp>
#include <vshim.hpp>
#include <vshim_pdi.hpp>
#include <cstdio>
#include <cmath>
int hclpp_real_main(int, char**);
int main(int argc, char** argv) {
    vcase::hooks().init = [](vcase::CellIn const& c) { vcase::CellState s{}; s.rho = 1 + 0.5*std::sin(6.28*c.x[0]); s.P = 1; s.u[0]=1; s.u[1]=0.3;return s; };
    auto r = vshim::run_world(atoi(argv[2]), 5, [&](int) { char* a[] = {(char*)"hera", argv[1], nullptr}; return hclpp_real_main(2, a); });
    std::printf("ok=%d\n%s\n%s\n", r.ok, r.cout_text.c_str(), r.cerr_text.c_str());
    for (auto& n : vshim::last_mpi_report().notes) std::printf("note %s\n", n.c_str());
    for (auto& n : vshim::pdi_log().warnings) std::printf("warn %s\n", n.c_str());
}
