package main

import "os"

func raceStage() bool { return os.Getenv("VERIF_STAGE") == "race" }
