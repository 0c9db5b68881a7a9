// irv-opt: sroa
#include "storage_rel.h"
IRV_HARNESS(m2m_add_state) { one<2>(ADD, STATE); }
IRV_HARNESS(m2m_add_undo) { one<2>(ADD, UNDO); }
IRV_HARNESS(m2m_add_replay) { one<2>(ADD, REPLAY); }
IRV_HARNESS(m2m_erase_state) { one<2>(ERASE, STATE); }
IRV_HARNESS(m2m_erase_undo) { one<2>(ERASE, UNDO); }
IRV_HARNESS(m2m_erase_replay) { one<2>(ERASE, REPLAY); }
#ifdef IRV_NATIVE
IRV_HARNESS(bounded_m2m_history) { history<2>(); }
#endif
