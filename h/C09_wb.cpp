#include "c09.hpp"
MC_REGISTER {
    mc::add_config("weighted, covariates<left>", rich_words<left>, 8);
    mc::add_config("long weighted, covariates<left>", rich_long<left>, 2);
}
