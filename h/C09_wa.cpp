#include "c09.hpp"
MC_REGISTER {
    mc::add_config("weighted, covariates<right>", rich_words<right>, 8);
    mc::add_config("long weighted, covariates<right>", rich_long<right>, 2);
}
