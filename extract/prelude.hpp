// The same prelude the repository's build force-includes: without
// __has_include the project's own Internal::Optional is used (the branch for
// std::optional does not compile with this library).
#include <bits/stdc++.h>
#undef __has_include
