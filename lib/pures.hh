// C27: everything its units register.
#pragma once
#include "selfupd.hh"
#include "text.hh"
