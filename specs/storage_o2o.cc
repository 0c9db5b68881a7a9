// irv-opt: sroa
#include "storage_rel.h"
IRV_HARNESS(o2o_add_state) { one<0>(ADD, STATE); }
IRV_HARNESS(o2o_add_undo) { one<0>(ADD, UNDO); }
IRV_HARNESS(o2o_add_replay) { one<0>(ADD, REPLAY); }
IRV_HARNESS(o2o_erase_state) { one<0>(ERASE, STATE); }
IRV_HARNESS(o2o_erase_undo) { one<0>(ERASE, UNDO); }
IRV_HARNESS(o2o_erase_replay) { one<0>(ERASE, REPLAY); }
IRV_HARNESS(o2o_erase_row_state) { one<0>(ERASE_ROW, STATE); }
IRV_HARNESS(o2o_erase_row_undo) { one<0>(ERASE_ROW, UNDO); }
IRV_HARNESS(o2o_erase_row_replay) { one<0>(ERASE_ROW, REPLAY); }
IRV_HARNESS(o2o_erase_col_state) { one<0>(ERASE_COL, STATE); }
IRV_HARNESS(o2o_erase_col_undo) { one<0>(ERASE_COL, UNDO); }
IRV_HARNESS(o2o_erase_col_replay) { one<0>(ERASE_COL, REPLAY); }
#ifdef IRV_NATIVE
IRV_HARNESS(bounded_o2o_history) { history<0>(); }
#endif
