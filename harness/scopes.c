#include "mc.h"
extern const mc_scope scopes_io[], scopes_filter[], scopes_iter[], scopes_merge[], scopes_mem[], scopes_check[], scopes_file[], scopes_v1[], scopes_order[], scopes_damage[], scopes_write[], scopes_status[], scopes_leak[], scopes_util[], scopes_contra[], scopes_reuse[], scopes_names[], scopes_other[], scopes_large[], scopes_alloc[], scopes_report[];
const mc_scope *const mc_scope_tables[] = {scopes_io, scopes_filter, scopes_iter, scopes_merge, scopes_mem, scopes_check, scopes_file, scopes_v1, scopes_order, scopes_damage, scopes_write, scopes_status, scopes_leak, scopes_util, scopes_contra, scopes_reuse, scopes_names, scopes_other, scopes_large, scopes_alloc, scopes_report, 0};
