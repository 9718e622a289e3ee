#pragma once
static int builtinId(const std::string&);
