#ifndef VP_CONTRACT_H
#define VP_CONTRACT_H
#include "vp.h"
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#ifdef VP_BC
template class std::basic_string<char>;
// libstdc++ list.cc (not in a header)
#include <list>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n=_M_next; _List_node_base* p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base* const f,_List_node_base* const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; _M_prev->_M_next=f; _List_node_base* const t=_M_prev; _M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
} }
#endif
// state shared by all cases of a contract: the engine executes it once (annotation setup=name), native runs once per run
#define SETUP(name) extern "C" __attribute__((used)) void setup_##name()
#ifdef VP_BC
#define USE_SETUP(name)
#else
#define USE_SETUP(name) setup_##name()
#endif
#define PROOF(name) extern "C" __attribute__((used)) void proof_##name()
#endif
