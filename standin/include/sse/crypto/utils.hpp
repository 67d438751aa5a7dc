#pragma once
#include <sse/crypto/standin.hpp>
