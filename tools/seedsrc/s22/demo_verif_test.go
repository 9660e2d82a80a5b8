package handlers

import (
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/restapi/operations"
)

func TestSeedFailedList(t *testing.T) {
	c, err := document.New(document.Config{}, nil)
	if err != nil {
		t.Fatal(err)
	}
	h := &Handler{doc: c}
	if r, ok := h.FaveGetCollectionsHandler(operations.FaveGetCollectionsParams{}).(*operations.FaveGetCollectionsOK); ok {
		t.Fatal("not logged in, but", r.Payload)
	}
}
