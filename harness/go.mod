module verif/harness

go 1.26.0

require github.com/transcriptaze/midiasm v0.0.0

replace github.com/transcriptaze/midiasm => /repo
