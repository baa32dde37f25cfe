#pragma once
#include "block_progress_bar.hpp"
