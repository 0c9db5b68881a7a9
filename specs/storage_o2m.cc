// irv-opt: sroa
#include "storage_rel.h"
IRV_HARNESS(o2m_add_state) { one<1>(ADD, STATE); }
IRV_HARNESS(o2m_add_undo) { one<1>(ADD, UNDO); }
IRV_HARNESS(o2m_add_replay) { one<1>(ADD, REPLAY); }
IRV_HARNESS(o2m_erase_state) { one<1>(ERASE, STATE); }
IRV_HARNESS(o2m_erase_undo) { one<1>(ERASE, UNDO); }
IRV_HARNESS(o2m_erase_replay) { one<1>(ERASE, REPLAY); }
IRV_HARNESS(o2m_erase_col_state) { one<1>(ERASE_COL, STATE); }
IRV_HARNESS(o2m_erase_col_undo) { one<1>(ERASE_COL, UNDO); }
IRV_HARNESS(o2m_erase_col_replay) { one<1>(ERASE_COL, REPLAY); }
#ifdef IRV_NATIVE
IRV_HARNESS(bounded_o2m_history) { history<1>(); }
#endif
