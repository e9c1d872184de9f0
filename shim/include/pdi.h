/* PDI stand-in (decl_hdf5 and mpi plugins, on real HDF5 files) */
#ifndef VSHIM_PDI_H
#define VSHIM_PDI_H
#include <paraconf.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { PDI_NONE = 0, PDI_IN = 1, PDI_OUT = 2, PDI_INOUT = 3 } PDI_inout_t;
typedef int PDI_status_t;
#define PDI_OK 0
PDI_status_t PDI_init(PC_tree_t conf);
PDI_status_t PDI_finalize(void);
PDI_status_t PDI_multi_expose(char const* event_name, char const* name, void const* data, PDI_inout_t access, ...);
PDI_status_t PDI_expose(char const* name, void const* data, PDI_inout_t access);
PDI_status_t PDI_share(char const* name, void const* data, PDI_inout_t access);
PDI_status_t PDI_reclaim(char const* name);
PDI_status_t PDI_event(char const* event_name);
#ifdef __cplusplus
}
#endif
#endif
