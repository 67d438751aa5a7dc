#pragma once
// stand-in: nothing of rapidjson is used by the schemes
#include <iostream>
