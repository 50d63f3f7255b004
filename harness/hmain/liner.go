// Package hmain drives the interactive shell. The executor adds the files of
// the shell's main package to it.
package hmain

import (
	"github.com/peterh/liner"

	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// What the user does at a prompt.
type zzTyped struct {
	line string
	err  error
}

var (
	zzAsked    = make(chan string)
	zzAnswers  = make(chan zzTyped)
	zzComplete liner.WordCompleter
	zzEnded    = make(chan bool)
)

type zzMode struct{}

func (zzMode) ApplyMode() error { return nil }

//sx:replace github.com/peterh/liner.TerminalMode
func zzTerminalMode() (liner.ModeApplier, error) { return zzMode{}, nil }

//sx:replace github.com/peterh/liner.NewLiner
func zzNewLiner() *liner.State { return &liner.State{} }

//sx:replace (*github.com/peterh/liner.State).SetWordCompleter
func zzSetWordCompleter(_ *liner.State, f liner.WordCompleter) { zzComplete = f }

//sx:replace (*github.com/peterh/liner.State).Prompt
func zzPrompt(_ *liner.State, p string) (string, error) {
	zzAsked <- p
	a := <-zzAnswers
	return a.line, a.err
}

// zzShell starts the interactive shell and waits until it prompts.
func zzShell() string {
	mos.Terminal = true
	go func() {
		main()
		close(zzEnded)
	}()
	p := <-zzAsked

	sx.Quiesce()
	return p
}

// zzType types a line at the prompt and returns the next prompt.
func zzType(line string) string {
	zzAnswers <- zzTyped{line: line}
	return <-zzAsked
}
