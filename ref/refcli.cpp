#include "ref.h"
#include <cstdio>
#include <cstdlib>
#include <iterator>
#include <iostream>
int main(int c, char **v)
{
	ref::Spec s; s.algo = ref::algoByName(v[1]); if (s.algo < 0) return 2;
	s.digestLen = c > 2 ? atoi(v[2]) : 32;
	if (c > 3) { std::string x = v[3]; s.name.assign(x.begin(), x.end()); }
	if (c > 4) { std::string x = v[4]; s.custom.assign(x.begin(), x.end()); }
	s.key = ref::Bytes(16, 0);
	if (c > 5) s.key = ref::unhex(v[5]);
	std::string in((std::istreambuf_iterator<char>(std::cin)), std::istreambuf_iterator<char>());
	auto m = ref::make(s); m->update((const uint8_t *)in.data(), in.size());
	printf("%s\n", ref::hex(m->digest()).c_str());
}
