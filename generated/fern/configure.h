// -----------------------------------------------------------------------------
// Fern © Geoneric
//
// This file is part of Geoneric Fern which is available under the terms of
// the GNU General Public License (GPL), version 2. If you do not want to
// be bound by the terms of the GPL, you may purchase a proprietary license
// from Geoneric (http://www.geoneric.eu/contact).
// -----------------------------------------------------------------------------
#pragma once

#define FERN_BUILD_TYPE "Debug"
#define FERN_SYSTEM "Linux-6.18.44-fc-v437"
#define FERN_CXX_COMPILER "/usr/bin/g++"

#define FERN_MAJOR_VERSION 0
#define FERN_MINOR_VERSION 0
#define FERN_PATCH_VERSION 0
#define FERN_PRERELEASE_VERSION "-rc.1"
#define FERN_VERSION "0.0.0-rc.1"
#define FERN_COPYRIGHT "2010-now Geoneric"

// TODO Detect FERN_HOST_ARCHITECTURE and FERN_TARGET_ARCHITECTURE.
// #define FERN_ARCHITECTURE ""


namespace fern {

} // namespace fern
