#pragma once
#include "library/Java/Io.hpp"
#include "library/Java/Lang.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "library/Java/Lang/AssertionError/AssertionError.hpp"
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
#include "library/Java/Net.hpp"
#include "library/Java/Security.hpp"
#include "library/Java/Util.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
using namespace Java::Lang;
