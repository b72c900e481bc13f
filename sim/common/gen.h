// Seeded generator of conversion jobs (all choices come from the scenario stream).
#pragma once
#include "model.h"

struct GenOpt
{
	uint32_t maxCorners = 24;
	bool smallMax = false;    // Choose small maximum index values (library only).
	bool strictMax = false;   // Prefer maximum index values that force many buffer changes.
	bool specials = true;     // Inf, NaN and extreme values.
	bool oddNames = true;
	bool wantIndexed = false; // Always indexed output.
	bool stripsOnly = false;
	uint32_t maxOut = 1000;   // Output streams.
	int huge = 0;             // 1: mesh that exceeds 16-bit indices.
};

std::string genName(Choices& c, bool odd, int salt);
void genElemType(Choices& c, int& lay, int& typ);
std::vector<uint8_t> genValue(Bulk& b, int lay, int typ, bool specials);
mdl::Job genJob(Choices& c, const GenOpt& o);
std::string describe(const mdl::Job& j);
