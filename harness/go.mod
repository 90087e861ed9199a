module smcheck

go 1.24

require (
	github.com/NVIDIA/cstruct v0.0.0-20221206222058-cbc877f192d5
	github.com/NVIDIA/sortedmap v0.0.0
	github.com/anishathalye/porcupine v1.3.1
)

replace github.com/NVIDIA/sortedmap => /repo
