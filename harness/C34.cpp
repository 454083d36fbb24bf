// C34: terminal queries
#include "vp.h"
#include <utki/utility.hpp>
extern "C" void vp_set_terminal(int fd, bool on);
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
namespace {
void ask(const bool* t, unsigned which){
	switch(which){
	case 0: { bool r = utki::is_terminal_cin(), o = utki::is_cin_terminal(); vp_assert(r == t[0] && o == r, "the query about standard input"); break; }
	case 1: { bool r = utki::is_terminal_cout(), o = utki::is_cout_terminal(); vp_assert(r == t[1] && o == r, "the query about standard output"); break; }
	default: { bool r = utki::is_terminal_cerr(), o = utki::is_cerr_terminal(); vp_assert(r == t[2] && o == r, "the query about standard error"); break; }
	}
}
}
// any history of redirections and queries
VP_ENTRY(c34_history){
	bool t[3];
	for(int i = 0; i < 3; ++i){ t[i] = vp_sym<uint8_t>("terminal") & 1; vp_set_terminal(i, t[i]); }
	for(unsigned k = 0; k < VP_BOUND(4, 6); ++k){
		if(vp_choice(2, "redirect")){
			unsigned i = unsigned(vp_choice(3, "stream"));
			t[i] = vp_sym<uint8_t>("terminal") & 1;
			vp_set_terminal(int(i), t[i]);
		} else ask(t, unsigned(vp_choice(3, "stream")));
	}
	for(unsigned i = 0; i < 3; ++i) ask(t, i);
	vp_observe("t", t, sizeof t);
}
