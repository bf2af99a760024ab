-- Runs one chunk of Lua per line (in hex) and answers with one line of JSON, in which all strings are in hex
local function hex(s)
	return (s:gsub(".", function(c) return string.format("%02x", c:byte()) end))
end

local function unhex(s)
	return (s:gsub("..", function(h) return string.char(tonumber(h, 16)) end))
end

local function json(v)
	local t = type(v)
	if t == "nil" then
		return "null"
	elseif t == "boolean" then
		return tostring(v)
	elseif t == "number" then
		return math.type(v) == "integer" and tostring(v) or (v == math.floor(v) and string.format("%.0f", v) or string.format("%.17g", v))
	elseif t == "table" then
		local r = {}
		for i = 1, v.n or #v do
			r[i] = json(v[i])
		end
		return "[" .. table.concat(r, ",") .. "]"
	end
	return '"' .. hex(tostring(v)) .. '"'
end

L = table.pack
for line in io.lines() do
	local f, e = load(unhex(line))
	local r
	if f then
		r = table.pack(pcall(f))
	else
		r = table.pack(false, e)
	end
	collectgarbage()
	io.stdout:write(json(r), "\n")
	io.stdout:flush()
end
