package zzg

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
)

// Together writes models into one file, each under its own prefix, and loads them into others.
func Together(path string, saved, loaded []base.Classifier) error {
	w, err := base.CreateSerializedClassifierStub(path, base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "several", ClassifierVersion: "1.0"})
	if err != nil {
		return err
	}
	for i, m := range saved {
		if err := m.SaveWithPrefix(w, fmt.Sprint("models/", i)); err != nil {
			return err
		}
	}
	if err := w.Close(); err != nil {
		return err
	}
	r, err := base.ReadSerializedClassifierStub(path)
	if err != nil {
		return err
	}
	for i, m := range loaded {
		if err := m.LoadWithPrefix(r, fmt.Sprint("models/", i)); err != nil {
			return err
		}
	}
	r.Close()
	return nil
}
