module vh

go 1.22.0

require github.com/textwire/textwire/v2 v2.0.0

replace github.com/textwire/textwire/v2 => /repo
