/* Linked into the harness library with -Wl,--wrap=MESH_Get_Partitioning: when vp_part is set (by the driver, on rank 0)
   mesh distribution uses that partition instead of one computed by METIS or Zoltan. */
#include <stdlib.h>
#include <string.h>
#include <mpi.h>
#include "MSTK.h"
#include <metis.h>
int *vp_part = 0, vp_n = 0, vp_on = 0;
int __real_MESH_Get_Partitioning(Mesh_ptr mesh, int method, int **part, MSTK_Comm comm);
int __wrap_MESH_Get_Partitioning(Mesh_ptr mesh, int method, int **part, MSTK_Comm comm) {
  if (!vp_on) return __real_MESH_Get_Partitioning(mesh, method, part, comm);
  *part = 0;
  if (vp_part) { *part = (int *) malloc((vp_n ? vp_n : 1)*sizeof(int)); memcpy(*part, vp_part, vp_n*sizeof(int)); }
  return 1;
}
int vp_real_partitioning(Mesh_ptr mesh, int method, int **part, MSTK_Comm comm) { return __real_MESH_Get_Partitioning(mesh,method,part,comm); }
/* the same for the partition of the element graph of a file that is read in pieces */
int __real_METIS_PartGraphRecursive(idx_t *n, idx_t *ncon, idx_t *xadj, idx_t *adjncy, idx_t *vwgt, idx_t *vsize, idx_t *adjwgt,
                                    idx_t *nparts, real_t *tp, real_t *ub, idx_t *opts, idx_t *cut, idx_t *part);
int __wrap_METIS_PartGraphRecursive(idx_t *n, idx_t *ncon, idx_t *xadj, idx_t *adjncy, idx_t *vwgt, idx_t *vsize, idx_t *adjwgt,
                                    idx_t *nparts, real_t *tp, real_t *ub, idx_t *opts, idx_t *cut, idx_t *part) {
  if (!vp_on || !vp_part || vp_n != *n)
    return __real_METIS_PartGraphRecursive(n,ncon,xadj,adjncy,vwgt,vsize,adjwgt,nparts,tp,ub,opts,cut,part);
  for (int i = 0; i < vp_n; i++) part[i] = vp_part[i];
  *cut = 0;
  return METIS_OK;
}
