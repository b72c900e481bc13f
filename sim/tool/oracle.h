// What a run of the tool must do, decided from the bytes of its command line and input files alone.
#pragma once
#include "../common/model.h"
#include <functional>

namespace orc
{
enum Verdict { ACCEPT, REJECT, EITHER, HELP };
struct Expect
{
	Verdict v = REJECT;
	std::string why;
	mdl::Job job;
	std::string outDir; // As given, empty for none.
	bool errConfig = false, errData = false, errArgs = false, errConvert = false;
	std::vector<std::string> inputs; // Paths of the files the tool must read, as given to open.
};
// Returns false when the file cannot be read.
using Reader = std::function<bool(const std::string& path, std::string& out)>;

Expect evaluate(const std::vector<std::string>& argv, const std::string& stdinData, const Reader& rd);

struct Parsed
{
	bool complete = false; // stdout is exactly one JSON object with a "vertices" member.
	std::string why;
	std::vector<std::string> paths; // All data strings that are not embedded.
	std::vector<std::string> data;  // Every data string in order: vertices, then indices.
	std::vector<bool> isIndex;
};
Parsed parseResult(const std::string& out);
// Full verification of a successful run. Reads output files with rd.
mdl::Verdict verify(const Expect& e, const std::string& out, const Reader& rd,
	const std::function<bool(const std::string& path)>& inOutDir);
std::string b64(const std::string& d);
}
