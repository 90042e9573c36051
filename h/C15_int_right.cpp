#include "c15.hpp"
MC_REGISTER {
    mc::add_config("int.value.words<right>", int_words<right>, 4);
    mc::add_config("int.probability.words<right>", int_prob_words<right>, 4);
    mc::add_config("int.value.runs<right>", int_runs<right>, 1);
    mc::add_config("int.probability.runs<right>", int_prob_runs<right>, 2);
}
