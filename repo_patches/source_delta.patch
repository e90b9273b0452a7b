From bec1ef3c2486cb57656dbc7038e0c163ff04ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 01/99] fix: load and lock the document before answering
 references, rename, completion and signature help

---
 internal/lsp/completion.go | 3 +++
 internal/lsp/definition.go | 2 ++
 internal/lsp/hover.go      | 2 ++
 internal/lsp/reference.go  | 6 ++++++
 internal/lsp/signature.go  | 3 +++
 internal/lsp/symbol.go     | 2 ++
 6 files changed, 18 insertions(+)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 7e8c5b9..10a691f 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -69,6 +69,9 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	if document == nil {
 		return nil, nil
 	}
+	document.Lock()
+	defer document.Unlock()
+	document.Load()
 	var completionList *protocol.CompletionList = nil
 	pos := params.Position
 	q := analysis.NewQuery(store)
diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index 85f499c..be1d7b5 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -19,6 +19,8 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 	if document == nil {
 		return nil, nil
 	}
+	document.Lock()
+	defer document.Unlock()
 	document.Load()
 	q := analysis.NewQuery(store)
 	resolveCtx := analysis.NewResolveContext(q, document)
diff --git a/internal/lsp/hover.go b/internal/lsp/hover.go
index c29be26..38c4e3f 100644
--- a/internal/lsp/hover.go
+++ b/internal/lsp/hover.go
@@ -20,6 +20,8 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 	}
 	q := analysis.NewQuery(store)
 	resolveCtx := analysis.NewResolveContext(q, document)
+	document.Lock()
+	defer document.Unlock()
 	document.Load()
 	pos := params.TextDocumentPositionParams.Position
 	symbol := document.HasTypesAtPos(pos)
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index 443b5df..f06788d 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -35,6 +35,9 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	if document == nil {
 		return nil, nil
 	}
+	document.Lock()
+	defer document.Unlock()
+	document.Load()
 	pos := params.TextDocumentPositionParams.Position
 	nodes := document.NodeSpineAt(document.OffsetAtPosition(pos))
 	// log.Printf("Reference: %v %s", pos, nodes)
@@ -96,6 +99,9 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 	if doc == nil {
 		return nil, nil
 	}
+	doc.Lock()
+	defer doc.Unlock()
+	doc.Load()
 	pos := params.Position
 	symbol := doc.HasTypesAtPos(pos)
 	result := &protocol.WorkspaceEdit{
diff --git a/internal/lsp/signature.go b/internal/lsp/signature.go
index 5c9ff7c..4d417ff 100644
--- a/internal/lsp/signature.go
+++ b/internal/lsp/signature.go
@@ -29,6 +29,9 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 	if document == nil {
 		return nil, nil
 	}
+	document.Lock()
+	defer document.Unlock()
+	document.Load()
 	pos := params.TextDocumentPositionParams.Position
 	nodeStack := document.NodeSpineAt(document.OffsetAtPosition(pos))
 	if nodeStack.Parent().Type == phrase.ArrayInitialiserList {
diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index 6ecdec7..10d1be6 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -35,6 +35,8 @@ func (s *Server) documentSymbol(ctx context.Context, params *protocol.DocumentSy
 	if document == nil {
 		return symbols, nil
 	}
+	document.Lock()
+	defer document.Unlock()
 	document.Load()
 
 	results := []protocol.DocumentSymbol{}
-- 
2.43.0


From e824f34880b6bf59d8e6b0fe461f8c4ae30bbdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 02/99] fix: stop at classes already visited when collecting
 inherited properties and constants

---
 analysis/query.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index c7288fe..6c39e83 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -654,8 +654,13 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 	for len(classes) > 0 {
 		var class *Class
 		class, classes = classes[0], classes[1:]
+		scope := class.Name.GetFQN()
+		if _, ok := searchedFQNs[scope]; ok {
+			continue
+		}
+		searchedFQNs[scope] = struct{}{}
 		classConsts.Consts = append(classConsts.Consts,
-			classConstWithScopeFromConsts(class, q.GetClassConsts(class.Name.GetFQN(), name))...)
+			classConstWithScopeFromConsts(class, q.GetClassConsts(scope, name))...)
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
 				classConsts.RelationMap.Relate(class.Name.GetFQN(), class.Extends.GetFQN())
@@ -898,7 +903,12 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 	propsFromInterfaces := NewInheritedProps(nil, searchedFQNs)
 	for len(classes) > 0 {
 		class, classes = classes[0], classes[1:]
-		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(class.Name.GetFQN(), name))...)
+		scope := class.Name.GetFQN()
+		if _, ok := searchedFQNs[scope]; ok {
+			continue
+		}
+		searchedFQNs[scope] = struct{}{}
+		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(scope, name))...)
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
 				classes = append(classes, q.GetClasses(class.Extends.GetFQN())...)
-- 
2.43.0


From 63ac9e8af8840d2c528d573ff1086cf637121ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 03/99] fix: answer requests without params with an error
 instead of crashing

---
 internal/lsp/protocol/client.go   | 19 ++++---
 internal/lsp/protocol/protocol.go | 10 ++++
 internal/lsp/protocol/server.go   | 85 +++++++++++++++----------------
 3 files changed, 61 insertions(+), 53 deletions(-)

diff --git a/internal/lsp/protocol/client.go b/internal/lsp/protocol/client.go
index 288c2fb..af9fecd 100644
--- a/internal/lsp/protocol/client.go
+++ b/internal/lsp/protocol/client.go
@@ -6,7 +6,6 @@ package protocol
 
 import (
 	"context"
-	"encoding/json"
 	"log"
 
 	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
@@ -41,7 +40,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 	switch r.Method {
 	case "window/showMessage": // notif
 		var params ShowMessageParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -51,7 +50,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "window/logMessage": // notif
 		var params LogMessageParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -61,7 +60,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "telemetry/event": // notif
 		var params interface{}
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -71,7 +70,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/publishDiagnostics": // notif
 		var params PublishDiagnosticsParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -91,7 +90,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/configuration": // req
 		var params ParamConfig
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -102,7 +101,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "client/registerCapability": // req
 		var params RegistrationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -113,7 +112,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "client/unregisterCapability": // req
 		var params UnregistrationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -124,7 +123,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "window/showMessageRequest": // req
 		var params ShowMessageRequestParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -135,7 +134,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/applyEdit": // req
 		var params ApplyWorkspaceEditParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
diff --git a/internal/lsp/protocol/protocol.go b/internal/lsp/protocol/protocol.go
index 960d0f3..ffe6c67 100644
--- a/internal/lsp/protocol/protocol.go
+++ b/internal/lsp/protocol/protocol.go
@@ -6,6 +6,7 @@ package protocol
 
 import (
 	"context"
+	"encoding/json"
 	"log"
 	"strconv"
 	"strings"
@@ -38,6 +39,15 @@ func NewServer(ctx context.Context, stream jsonrpc2.Stream, server Server) (cont
 	return ctx, conn, client
 }
 
+// unmarshalParams decodes the params of the request, requests which omit
+// their params are rejected
+func unmarshalParams(r *jsonrpc2.Request, params interface{}) error {
+	if r.Params == nil {
+		return jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidParams, "method %q requires params", r.Method)
+	}
+	return json.Unmarshal(*r.Params, params)
+}
+
 func sendParseError(ctx context.Context, req *jsonrpc2.Request, err error) {
 	if _, ok := err.(*jsonrpc2.Error); !ok {
 		err = jsonrpc2.NewErrorf(jsonrpc2.CodeParseError, "%v", err)
diff --git a/internal/lsp/protocol/server.go b/internal/lsp/protocol/server.go
index febff16..12873e9 100644
--- a/internal/lsp/protocol/server.go
+++ b/internal/lsp/protocol/server.go
@@ -6,7 +6,6 @@ package protocol
 
 import (
 	"context"
-	"encoding/json"
 	"log"
 
 	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
@@ -75,7 +74,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 	switch r.Method {
 	case "workspace/didChangeWorkspaceFolders": // notif
 		var params DidChangeWorkspaceFoldersParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -85,7 +84,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "initialized": // notif
 		var params InitializedParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -100,7 +99,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/didChangeConfiguration": // notif
 		var params DidChangeConfigurationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -110,7 +109,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/didOpen": // notif
 		var params DidOpenTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -120,7 +119,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/didChange": // notif
 		var params DidChangeTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -130,7 +129,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/didClose": // notif
 		var params DidCloseTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -140,7 +139,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/didSave": // notif
 		var params DidSaveTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -150,7 +149,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/willSave": // notif
 		var params WillSaveTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -160,7 +159,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/didChangeWatchedFiles": // notif
 		var params DidChangeWatchedFilesParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -170,7 +169,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "$/progress": // notif
 		var params ProgressParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -180,7 +179,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "$/setTraceNotification": // notif
 		var params SetTraceParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -190,7 +189,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "$/logTraceNotification": // notif
 		var params LogTraceParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -200,7 +199,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/implementation": // req
 		var params ImplementationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -211,7 +210,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/typeDefinition": // req
 		var params TypeDefinitionParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -222,7 +221,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/documentColor": // req
 		var params DocumentColorParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -233,7 +232,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/colorPresentation": // req
 		var params ColorPresentationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -244,7 +243,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/foldingRange": // req
 		var params FoldingRangeParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -255,7 +254,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/declaration": // req
 		var params DeclarationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -266,7 +265,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/selectionRange": // req
 		var params SelectionRangeParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -277,7 +276,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "initialize": // req
 		var params InitializeParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -298,7 +297,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/willSaveWaitUntil": // req
 		var params WillSaveTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -309,7 +308,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/completion": // req
 		var params CompletionParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -320,7 +319,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "completionItem/resolve": // req
 		var params CompletionItem
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -331,7 +330,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/hover": // req
 		var params HoverParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -342,7 +341,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/signatureHelp": // req
 		var params SignatureHelpParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -353,7 +352,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/definition": // req
 		var params DefinitionParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -364,7 +363,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/references": // req
 		var params ReferenceParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -375,7 +374,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/documentHighlight": // req
 		var params DocumentHighlightParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -386,7 +385,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/documentSymbol": // req
 		var params DocumentSymbolParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -397,7 +396,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/codeAction": // req
 		var params CodeActionParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -408,7 +407,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/symbol": // req
 		var params WorkspaceSymbolParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -419,7 +418,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/codeLens": // req
 		var params CodeLensParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -430,7 +429,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "codeLens/resolve": // req
 		var params CodeLens
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -441,7 +440,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/documentLink": // req
 		var params DocumentLinkParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -452,7 +451,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "documentLink/resolve": // req
 		var params DocumentLink
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -463,7 +462,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/formatting": // req
 		var params DocumentFormattingParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -474,7 +473,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/rangeFormatting": // req
 		var params DocumentRangeFormattingParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -485,7 +484,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/onTypeFormatting": // req
 		var params DocumentOnTypeFormattingParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -496,7 +495,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/rename": // req
 		var params RenameParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -507,7 +506,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/prepareRename": // req
 		var params PrepareRenameParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -518,7 +517,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/executeCommand": // req
 		var params ExecuteCommandParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -529,7 +528,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "documentSignatures":
 		var params TextDocumentIdentifier
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
-- 
2.43.0


From 85aea37ba04f1e1bda232df1a7609a015736cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 04/99] fix: do not block the connection on responses nobody
 waits for

---
 internal/jsonrpc2/jsonrpc2.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/jsonrpc2/jsonrpc2.go b/internal/jsonrpc2/jsonrpc2.go
index 62c8141..609d58c 100644
--- a/internal/jsonrpc2/jsonrpc2.go
+++ b/internal/jsonrpc2/jsonrpc2.go
@@ -149,7 +149,9 @@ func (c *Conn) Call(ctx context.Context, method string, params, result interface
 	}
 	// we have to add ourselves to the pending map before we send, otherwise we
 	// are racing the response
-	rchan := make(chan *WireResponse)
+	// the channel is buffered so that delivering the response never blocks the
+	// reader, even when the call is cancelled at the same time
+	rchan := make(chan *WireResponse, 1)
 	c.pendingMu.Lock()
 	c.pending[id] = rchan
 	c.pendingMu.Unlock()
@@ -380,6 +382,13 @@ func (c *Conn) Run(runCtx context.Context) error {
 				delete(c.pending, *msg.ID)
 			}
 			c.pendingMu.Unlock()
+			if rchan == nil {
+				// nobody is waiting for it, e.g. the call has been cancelled
+				for _, h := range c.handlers {
+					h.Error(runCtx, fmt.Errorf("response to unknown call %v, ignoring", msg.ID))
+				}
+				continue
+			}
 			// and send the reply to the channel
 			response := &WireResponse{
 				Result: msg.Result,
-- 
2.43.0


From bc857979d2c689fa4eaf08c840ed635c31d01295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 05/99] fix: release the state lock when initialize is called
 twice

---
 internal/lsp/general.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/lsp/general.go b/internal/lsp/general.go
index 704e8e9..0dd0d99 100644
--- a/internal/lsp/general.go
+++ b/internal/lsp/general.go
@@ -28,6 +28,7 @@ func (s *Server) initialize(ctx context.Context, params *protocol.InitializePara
 	s.stateMu.Lock()
 	state := s.state
 	if state >= serverInitializing {
+		s.stateMu.Unlock()
 		return nil, jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidRequest, "already initialised")
 	}
 	s.state = serverInitializing
-- 
2.43.0


From a6b2a7a51b1d69a2aa84deb4868a937282be1728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 06/99] fix: keep line offsets exact for every line ending
 after incremental edits

---
 analysis/document.go | 81 ++++++++++++--------------------------------
 1 file changed, 22 insertions(+), 59 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 4371962..348543a 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -111,56 +111,36 @@ func (s *Document) GetURI() string {
 // SetText is a setter for text, at the same time update line offsets
 func (s *Document) SetText(text []byte) {
 	s.text = text
-	s.lineOffsets, s.detectedEOL = calculateLineOffsets(s.text, 0)
+	s.lineOffsets, s.detectedEOL = calculateLineOffsets(s.text)
 }
 
 func (s *Document) pushImportTable(node *phrase.Phrase) {
 	s.importTables = append(s.importTables, newImportTable(s, node))
 }
 
-func calculateLineOffsets(text []byte, offset int) ([]int, string) {
-	n := 0
-	isLineStart := true
-	lineOffsets := []int{}
-	var r rune
-	var size int
-	eol := "\n"
-	stopDetectingEol := false
-
-	for len(text) > 0 {
-		r, size = utf8.DecodeRune(text)
-		if isLineStart {
-			lineOffsets = append(lineOffsets, n)
-			isLineStart = false
+// calculateLineOffsets returns the offsets at which lines start and the first
+// end of line in the text. Lines end with \n, \r\n or \r
+func calculateLineOffsets(text []byte) ([]int, string) {
+	lineOffsets := []int{0}
+	eol := ""
+	for i := 0; i < len(text); i++ {
+		lineEnd := "\n"
+		switch {
+		case text[i] == '\r' && i+1 < len(text) && text[i+1] == '\n':
+			lineEnd = "\r\n"
+			i++
+		case text[i] == '\r':
+			lineEnd = "\r"
+		case text[i] != '\n':
+			continue
 		}
-		if r == '\r' {
-			if len(text) > 0 {
-				nextR, nextSize := utf8.DecodeRune(text[size:])
-				if nextR == '\n' {
-					text = text[size+nextSize:]
-					n += size + nextSize
-					if !stopDetectingEol {
-						eol = "\r\n"
-						stopDetectingEol = true
-					}
-					lineOffsets = append(lineOffsets, n+offset)
-					continue
-				}
-			} else {
-				if !stopDetectingEol {
-					eol = "\r"
-					stopDetectingEol = true
-				}
-			}
-			lineOffsets = append(lineOffsets, n+offset)
-		} else if r == '\n' {
-			lineOffsets = append(lineOffsets, n+offset+size)
+		if eol == "" {
+			eol = lineEnd
 		}
-		text = text[size:]
-		n += size
+		lineOffsets = append(lineOffsets, i+1)
 	}
-	if isLineStart {
-		lineOffsets = append(lineOffsets, n)
+	if eol == "" {
+		eol = "\n"
 	}
 	return lineOffsets, eol
 }
@@ -574,24 +554,7 @@ func (s *Document) ApplyChanges(changes []protocol.TextDocumentContentChangeEven
 		newText := append(s.text[:0:0], s.text[0:startOffset]...)
 		newText = append(newText, text...)
 		newText = append(newText, s.text[endOffset:]...)
-		s.text = newText
-
-		min := start.Line + 1
-		if min > len(s.lineOffsets) {
-			min = len(s.lineOffsets)
-		}
-		newLineOffsets := append(s.lineOffsets[:0:0], s.lineOffsets[0:min]...)
-		lengthDiff := len(text) - (endOffset - startOffset)
-		offsets, eol := calculateLineOffsets(text, startOffset)
-		s.detectedEOL = eol
-		newLineOffsets = append(newLineOffsets, offsets[1:]...)
-		if end.Line+1 < len(s.lineOffsets) {
-			endLineOffsets := s.lineOffsets[end.Line+1:]
-			for _, endLineOffset := range endLineOffsets {
-				newLineOffsets = append(newLineOffsets, endLineOffset+lengthDiff)
-			}
-		}
-		s.lineOffsets = newLineOffsets
+		s.SetText(newText)
 	}
 	util.TimeTrack(start, "contentChanges")
 	start = time.Now()
-- 
2.43.0


From f0836f28cb70a67a67fb0927ed27ed978023c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 07/99] fix: count characters of positions in UTF-16 code
 units, as the LSP does

---
 analysis/document.go | 81 ++++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 22 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 348543a..4157c6c 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"bytes"
 	"crypto/sha1"
 	"encoding/json"
 	"regexp"
@@ -27,6 +28,7 @@ type Document struct {
 	loadMu      sync.Mutex
 	isOpen      bool
 	detectedEOL string
+	isASCII     bool
 
 	variableTables     []*VariableTable
 	variableTableLevel int
@@ -112,6 +114,7 @@ func (s *Document) GetURI() string {
 func (s *Document) SetText(text []byte) {
 	s.text = text
 	s.lineOffsets, s.detectedEOL = calculateLineOffsets(s.text)
+	s.isASCII = bytes.IndexFunc(s.text, func(r rune) bool { return r >= utf8.RuneSelf }) < 0
 }
 
 func (s *Document) pushImportTable(node *phrase.Phrase) {
@@ -151,42 +154,75 @@ func (s *Document) lineAt(offset int) int {
 	}) - 1
 }
 
-func (s *Document) offsetAtLine(line int) int {
-	if line <= 0 || len(s.lineOffsets) < 1 {
-		return 0
+// endOfLine returns the offset at which the content of the line ends,
+// excluding the end of line
+func (s *Document) endOfLine(line int) int {
+	end := len(s.text)
+	if line+1 < len(s.lineOffsets) {
+		end = s.lineOffsets[line+1]
+		if end > 0 && s.text[end-1] == '\n' {
+			end--
+		}
+		if end > s.lineOffsets[line] && s.text[end-1] == '\r' {
+			end--
+		}
 	}
-	if line > len(s.lineOffsets)-1 {
-		return s.lineOffsets[len(s.lineOffsets)-1]
+	return end
+}
+
+// utf16Size returns the number of UTF-16 code units of the rune, which is what
+// the LSP counts characters in
+func utf16Size(r rune) int {
+	if r > 0xFFFF {
+		return 2
 	}
-	return s.lineOffsets[line]
+	return 1
 }
 
 func (s *Document) positionAt(offset int) protocol.Position {
 	line := s.lineAt(offset)
+	end := offset
+	if end > len(s.text) {
+		end = len(s.text)
+	}
+	if s.isASCII {
+		return protocol.Position{
+			Line:      line,
+			Character: end - s.lineOffsets[line],
+		}
+	}
+	character := 0
+	for text := s.text[s.lineOffsets[line]:end]; len(text) > 0; {
+		r, size := utf8.DecodeRune(text)
+		character += utf16Size(r)
+		text = text[size:]
+	}
 	return protocol.Position{
 		Line:      line,
-		Character: offset - s.lineOffsets[line],
+		Character: character,
 	}
 }
 
+// OffsetAtPosition returns the byte offset of the position, positions after the
+// end of a line are at the end of that line
 func (s *Document) OffsetAtPosition(pos protocol.Position) int {
-	offset := s.offsetAtLine(pos.Line)
-	offsetCharacter := 0
-	for i := 0; i < pos.Character; i++ {
-		_, size := utf8.DecodeRune(s.text[offset+offsetCharacter:])
-		offsetCharacter += size
-	}
-	offset += offsetCharacter
-	min := 0
-	if offset < len(s.text) {
-		min = offset
-	} else {
-		min = len(s.text)
-	}
-	if 0 > min {
+	if pos.Line < 0 {
 		return 0
 	}
-	return min
+	if pos.Line > len(s.lineOffsets)-1 {
+		return len(s.text)
+	}
+	offset := s.lineOffsets[pos.Line]
+	end := s.endOfLine(pos.Line)
+	for character := 0; offset < end; {
+		r, size := utf8.DecodeRune(s.text[offset:end])
+		character += utf16Size(r)
+		if character > pos.Character {
+			break
+		}
+		offset += size
+	}
+	return offset
 }
 
 // NodeRange returns the lsp range of the given node
@@ -529,6 +565,7 @@ func (s *Document) CloneForMutate() *Document {
 		lineOffsets: s.lineOffsets,
 		isOpen:      s.isOpen,
 		detectedEOL: s.detectedEOL,
+		isASCII:     s.isASCII,
 
 		hasChanges: true,
 	}
-- 
2.43.0


From 418afe4345e8314673125f4fe32594e6e2f9ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 08/99] fix: convert between paths and URIs without escaping
 twice

---
 util/uri.go | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/util/uri.go b/util/uri.go
index 44fedda..c7cbbd5 100644
--- a/util/uri.go
+++ b/util/uri.go
@@ -7,9 +7,13 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"path/filepath"
+	"regexp"
 	"strings"
 )
 
+var /* const */ windowsDrive = regexp.MustCompile(`^/[a-zA-Z]:(/|$)`)
+
 // URIToPath convert URI to file path
 func URIToPath(uri string) (string, error) {
 	urlIns, err := url.ParseRequestURI(uri)
@@ -21,13 +25,9 @@ func URIToPath(uri string) (string, error) {
 	if urlIns.Scheme != "file" {
 		return "", errors.New("cannot convert non-file URI")
 	}
-	filePath, err := url.QueryUnescape(urlIns.Path)
-
-	if err != nil {
-		return "", err
-	}
+	filePath := urlIns.Path
 
-	if strings.Contains(filePath, ":") {
+	if windowsDrive.MatchString(filePath) {
 		filePath = strings.TrimPrefix(filePath, "/")
 		filePath = strings.Replace(filePath, "/", "\\", -1)
 	}
@@ -38,22 +38,8 @@ func URIToPath(uri string) (string, error) {
 // PathToURI converts file path to URI
 func PathToURI(path string) string {
 	urlIns := new(url.URL)
-	path = strings.Replace(strings.Trim(path, "/"), "\\", "/", -1)
-	parts := strings.Split(path, "/")
-	first, parts := parts[0], parts[1:]
-
-	if !strings.HasSuffix(first, ":") {
-		first = url.QueryEscape(first)
-	}
-
-	tempParts := parts[:0]
-	for _, part := range parts {
-		tempParts = append(tempParts, url.QueryEscape(part))
-	}
-	parts = append([]string{first}, tempParts...)
-
 	urlIns.Scheme = "file"
-	urlIns.Path = "/" + strings.Join(parts, "/")
+	urlIns.Path = "/" + strings.Trim(filepath.ToSlash(path), "/")
 
 	return urlIns.String()
 }
@@ -110,15 +96,12 @@ func IsURINavigatable(uri string) bool {
 	return strings.HasPrefix(uri, "file://")
 }
 
+// DecodeURIFromQuery returns the URI in the encoding PathToURI uses
 func DecodeURIFromQuery(uri string) (string, error) {
-	uri, err := url.QueryUnescape(uri)
-	if err != nil {
-		return "", fmt.Errorf("workspaceStore.getStore cannot QueryUnescape %s, err: %v", uri, err)
-	}
 	u, err := url.Parse(uri)
 	if err != nil {
-		return "", fmt.Errorf("workspaceStore.getStore cannot Parse %s, err: %v", uri, err)
+		return "", fmt.Errorf("DecodeURIFromQuery cannot Parse %s, err: %v", uri, err)
 	}
-	uri = u.String()
-	return uri, nil
+	u.RawPath = ""
+	return u.String(), nil
 }
-- 
2.43.0


From e22448c0f9292f74000af8935feef86821fd89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 09/99] fix: index the text of the editor while a document is
 open and the disk otherwise

The text sent with didOpen was ignored, closing re-indexed the unsaved buffer,
documents which were only read stayed in memory and hid later changes on the
disk, and concurrent events for one file could leave the older content indexed.
---
 analysis/store.go              | 181 +++++++++++++++++++--------------
 internal/lsp/sync.go           |   6 +-
 internal/lsp/workspaceStore.go |  12 ++-
 3 files changed, 116 insertions(+), 83 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 2ba2f37..b8cf5cf 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -3,11 +3,13 @@ package analysis
 import (
 	"bytes"
 	"context"
+	"hash/fnv"
 	"log"
 	"os"
 	"path"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/Masterminds/semver"
@@ -117,7 +119,12 @@ type Store struct {
 	refIndex  *referenceIndex
 	stubbers  []stub.Stubber
 	documents cmap.ConcurrentMap
-	isClosed  bool
+	// closeMu is held for reading while documents are written to the disk, so
+	// that closing waits for them
+	closeMu  sync.RWMutex
+	isClosed bool
+	// uriMus serialises reading, indexing and deleting of a URI
+	uriMus [64]sync.Mutex
 
 	syncedDocumentURIs   cmap.ConcurrentMap
 	DebouncedDeprecation func(func())
@@ -243,6 +250,8 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 
 // Close triggers close on the fuzzy engine, and closes the disk storage
 func (s *Store) Close() {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
 	if s.isClosed {
 		return
 	}
@@ -309,63 +318,60 @@ func (s *Store) LoadStubs() {
 	log.Printf("LoadStubs took %s", time.Since(start))
 }
 
-// GetOrCreateDocument checks if the store contains the given URI or
-// create a new document with the given URI
-func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
-	var document *Document
-	if value, ok := s.documents.Get(uri); !ok {
-		data, err := s.FS.ReadFile(ctx, uri)
-		if err != nil {
-			log.Printf("GetOrCreateDocument error: %v", err)
-			return nil
-		}
-		document = NewDocument(uri, data)
-		s.SaveDocOnStore(document)
-	} else {
-		document = value.(*Document)
-	}
-	return document
+// LockURI serialises the work on the document with the given URI, the returned
+// function unlocks it
+func (s *Store) LockURI(uri protocol.DocumentURI) func() {
+	h := fnv.New32a()
+	h.Write([]byte(uri))
+	mu := &s.uriMus[h.Sum32()%uint32(len(s.uriMus))]
+	mu.Lock()
+	return mu.Unlock
 }
 
-// OpenDocument loads and index the document with the given URI, at the same time
-// marks it as open to retain it on the memory
-func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		log.Printf("Document %s not found", uri)
+// GetOrCreateDocument returns the document retained on the memory or
+// reads the document with the given URI. Documents which are only read are not
+// retained because their content can change on the disk
+func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentURI) *Document {
+	if value, ok := s.documents.Get(uri); ok {
+		return value.(*Document)
+	}
+	data, err := s.FS.ReadFile(ctx, uri)
+	if err != nil {
+		log.Printf("GetOrCreateDocument error: %v", err)
 		return nil
 	}
-	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
+	return NewDocument(uri, data)
+}
+
+// OpenDocument loads and index the document with the given URI and text, at the
+// same time marks it as open to retain it on the memory
+func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI, text []byte) *Document {
+	defer s.LockURI(uri)()
+	document := NewDocument(uri, text)
 	document.Open()
 	document.Load()
+	s.SaveDocOnStore(document)
+	document.Lock()
+	defer document.Unlock()
 	s.SyncDocument(document)
 	return document
 }
 
-// CloseDocument syncs the document with the given URI and marks
-// it as close to release memory
+// CloseDocument releases the memory of the document with the given URI, its
+// content is now the one which is on the disk
 func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		log.Printf("document %s not found", uri)
-		return
-	}
-	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
-	document.Close()
-	s.SyncDocument(document)
+	s.documents.Remove(uri)
+	s.CompareAndIndexDocument(ctx, uri)
 }
 
 // DeleteDocument deletes all symbols and indexes relating to the URI
 // this returns error if the disk cannot be written
 func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
+	s.closeMu.RLock()
+	defer s.closeMu.RUnlock()
+	if s.isClosed {
+		return
+	}
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		ciDeletor := newCompletionIndexDeletor(s.db, uri)
 		ciDeletor.Delete(b)
@@ -381,41 +387,68 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 	}
 }
 
+// RemoveDocument deletes the document with the given URI, unless it has been
+// created again in the meantime
+func (s *Store) RemoveDocument(ctx context.Context, uri protocol.DocumentURI) {
+	unlock := s.LockURI(uri)
+	if _, err := s.FS.ReadFile(ctx, uri); err != nil {
+		s.DeleteDocument(uri)
+		unlock()
+		return
+	}
+	unlock()
+	s.CompareAndIndexDocument(ctx, uri)
+}
+
+// RemoveFolder searches for documents inside the folder and triggers `RemoveDocument`
+func (s *Store) RemoveFolder(ctx context.Context, uri protocol.DocumentURI) {
+	for _, uri := range s.documentURIsInFolder(uri) {
+		s.RemoveDocument(ctx, uri)
+	}
+}
+
 // DeleteFolder searches for documents and triggers `DeleteDocument`
 func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
-	entry := newEntry(documentCollection, uri)
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		uri := strings.Split(string(it.Key()), KeySep)[1]
+	for _, uri := range s.documentURIsInFolder(uri) {
 		s.DeleteDocument(uri)
+	}
+}
+
+func (s *Store) documentURIsInFolder(uri protocol.DocumentURI) []protocol.DocumentURI {
+	var uris []protocol.DocumentURI
+	entry := newEntry(documentCollection, strings.TrimSuffix(uri, "/")+"/")
+	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
+		uris = append(uris, strings.Split(string(it.Key()), KeySep)[1])
 	})
+	return uris
 }
 
 // CompareAndIndexDocument compares the file's hash with the stored one
 // on the disk, and if they are not matched load the document and sync.
 // The pointer to the document is returned
 func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Document {
-	document := s.GetOrCreateDocument(ctx, uri)
-	if document == nil {
-		return nil
+	defer s.LockURI(uri)()
+	var document *Document
+	if value, ok := s.documents.Get(uri); ok {
+		document = value.(*Document)
+	} else {
+		data, err := s.FS.ReadFile(ctx, uri)
+		if err != nil {
+			log.Printf("CompareAndIndexDocument error: %v", err)
+			if os.IsNotExist(err) {
+				s.DeleteDocument(uri)
+			}
+			return nil
+		}
+		document = NewDocument(uri, data)
 	}
 	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
+	defer document.Unlock()
 
 	currentMD5 := document.GetHash()
-	savedMD5, ok := s.syncedDocumentURIs.Get(uri)
-	if ok {
-		s.syncedDocumentURIs.Remove(uri)
-	} else {
-		entry := newEntry(documentCollection, document.GetURI())
-		value, err := s.db.Get(entry.getKeyBytes())
-		if err == nil {
-			savedMD5 = value
-		}
-	}
-	if savedMD5 != nil && bytes.Equal(currentMD5, savedMD5.([]byte)) {
+	s.syncedDocumentURIs.Remove(uri)
+	savedMD5, err := s.db.Get(newEntry(documentCollection, uri).getKeyBytes())
+	if err == nil && bytes.Equal(currentMD5, savedMD5) {
 		return document
 	}
 
@@ -428,6 +461,12 @@ func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Docume
 // or the fuzzy engine
 func (s *Store) SyncDocument(document *Document) {
 	defer util.TimeTrack(time.Now(), "SyncDocument")
+	s.closeMu.RLock()
+	defer s.closeMu.RUnlock()
+	if s.isClosed {
+		return
+	}
+	s.syncedDocumentURIs.Remove(document.GetURI())
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		s.comDB.WriteBatch(func(comB storage.Batch) error {
 			ciDeletor := newCompletionIndexDeletor(s.comDB, document.GetURI())
@@ -448,12 +487,6 @@ func (s *Store) SyncDocument(document *Document) {
 	}
 }
 
-func (s *Store) releaseDocIfNotOpen(document *Document) {
-	if !document.IsOpen() {
-		s.documents.Remove(document.uri)
-	}
-}
-
 // SaveDocOnStore retains the document in memory
 func (s *Store) SaveDocOnStore(document *Document) {
 	s.documents.Set(document.GetURI(), document)
@@ -474,15 +507,13 @@ func (s *Store) PrepareForIndexing() {
 // and delete them, because if the file exists its URI should be removed
 // from the map
 func (s *Store) FinishIndexing() {
-	err := s.db.WriteBatch(func(wb storage.Batch) error {
-		for iter := range s.syncedDocumentURIs.IterBuffered() {
+	for iter := range s.syncedDocumentURIs.IterBuffered() {
+		unlock := s.LockURI(iter.Key)
+		if s.syncedDocumentURIs.Has(iter.Key) {
 			s.DeleteDocument(iter.Key)
 			s.syncedDocumentURIs.Remove(iter.Key)
 		}
-		return nil
-	})
-	if err != nil {
-		log.Println(err)
+		unlock()
 	}
 }
 
diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index a685252..a0cbd7d 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -19,10 +19,8 @@ func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocume
 	if store == nil {
 		return nil
 	}
-	document := store.OpenDocument(ctx, uri)
-	if document != nil {
-		s.provideDiagnostics(ctx, store, document)
-	}
+	document := store.OpenDocument(ctx, uri, []byte(params.TextDocument.Text))
+	s.provideDiagnostics(ctx, store, document)
 	return nil
 }
 
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 31603cf..7977132 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -53,6 +53,9 @@ func (s *workspaceStore) newCreator(id int) {
 		uri, err := util.DecodeURIFromQuery(job.uri)
 		if err != nil {
 			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", job.uri, err)
+			if job.waitGroup != nil {
+				job.waitGroup.Done()
+			}
 			continue
 		}
 		store := s.getStore(uri)
@@ -86,7 +89,7 @@ func (s *workspaceStore) newDeletor(id int) {
 		if store == nil {
 			continue
 		}
-		s.removeDocument(store, uri)
+		s.removeDocument(s.ctx, store, uri)
 	}
 }
 
@@ -232,9 +235,9 @@ func (s *workspaceStore) removeStore(uri protocol.DocumentURI) {
 	}
 }
 
-func (s *workspaceStore) removeDocument(store *analysis.Store, uri string) {
-	store.DeleteDocument(uri)
-	store.DeleteFolder(uri)
+func (s *workspaceStore) removeDocument(ctx context.Context, store *analysis.Store, uri string) {
+	store.RemoveDocument(ctx, uri)
+	store.RemoveFolder(ctx, uri)
 }
 
 func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
@@ -243,6 +246,7 @@ func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.Di
 	if store == nil {
 		return nil
 	}
+	defer store.LockURI(uri)()
 	document := store.GetOrCreateDocument(ctx, uri)
 	if document == nil {
 		return nil
-- 
2.43.0


From 32ced477c61e8d20564399ad7759fcf366bfb95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:24 +0000
Subject: [PATCH 10/99] fix: close and clear the completion index together with
 the rest of the store

---
 analysis/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/analysis/store.go b/analysis/store.go
index b8cf5cf..c063d19 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -256,6 +256,7 @@ func (s *Store) Close() {
 		return
 	}
 	s.db.Close()
+	s.comDB.Close()
 	s.greb.Close()
 	s.isClosed = true
 }
@@ -278,6 +279,7 @@ func (s *Store) PutVersion(version string) {
 // Clear triggers a disk clear
 func (s *Store) Clear() {
 	s.db.Clear()
+	s.comDB.Clear()
 }
 
 // Migrate checks for defined version if it is less than
-- 
2.43.0


From a3472ff1e5004e8bc74da562fa4e24518032282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:24 +0000
Subject: [PATCH 11/99] fix: match folders on path boundaries and guard the
 list of folders

---
 internal/lsp/workspaceStore.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 7977132..89e5015 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -26,6 +26,7 @@ type creatorJob struct {
 type workspaceStore struct {
 	server     *Server
 	ctx        context.Context
+	storesMu   sync.RWMutex
 	stores     []*analysis.Store
 	createJobs chan creatorJob
 	deleteJobs chan string
@@ -65,7 +66,7 @@ func (s *workspaceStore) newCreator(id int) {
 			}
 			log.Printf("workspaceStore.newCreator store not found: %s", uri)
 			log.Printf("Stores:")
-			for _, store := range s.stores {
+			for _, store := range s.allStores() {
 				log.Println(store.GetURI())
 			}
 			continue
@@ -94,7 +95,7 @@ func (s *workspaceStore) newDeletor(id int) {
 }
 
 func (s *workspaceStore) close() {
-	for _, store := range s.stores {
+	for _, store := range s.allStores() {
 		store.Close()
 	}
 }
@@ -133,7 +134,9 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 	}
 	store.Migrate(protocol.GetVersion(ctx))
 	store.LoadStubs()
+	s.storesMu.Lock()
 	s.stores = append(s.stores, store)
+	s.storesMu.Unlock()
 	if err != nil {
 		log.Printf("addView error: %v", err)
 		return
@@ -146,13 +149,14 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 }
 
 func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
-	store := s.getStore(uri)
-	if store == nil {
-		return
+	for _, store := range s.allStores() {
+		if store.GetURI() == uri {
+			defer store.Close()
+			s.removeStore(uri)
+			s.unregisterFileWatcher(ctx, uri, server)
+			break
+		}
 	}
-	defer store.Close()
-	s.removeStore(store.GetURI())
-	s.unregisterFileWatcher(ctx, uri, server)
 }
 
 func getFileWatcherID(base string) string {
@@ -217,9 +221,16 @@ func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store,
 	}()
 }
 
+func (s *workspaceStore) allStores() []*analysis.Store {
+	s.storesMu.RLock()
+	defer s.storesMu.RUnlock()
+	return append([]*analysis.Store(nil), s.stores...)
+}
+
 func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
-	for _, store := range s.stores {
-		if strings.HasPrefix(uri, store.GetURI()) {
+	for _, store := range s.allStores() {
+		folder := strings.TrimSuffix(store.GetURI(), "/")
+		if uri == folder || strings.HasPrefix(uri, folder+"/") {
 			return store
 		}
 	}
@@ -227,6 +238,8 @@ func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
 }
 
 func (s *workspaceStore) removeStore(uri protocol.DocumentURI) {
+	s.storesMu.Lock()
+	defer s.storesMu.Unlock()
 	for i, store := range s.stores {
 		if store.GetURI() == uri {
 			s.stores = append(s.stores[:i], s.stores[i+1:]...)
-- 
2.43.0


From 2619187a0c03425593da7e23c879ff44ab3a99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 12/99] fix: do not crash on folders which cannot be listed

---
 internal/lsp/protocol/fs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/lsp/protocol/fs.go b/internal/lsp/protocol/fs.go
index d905203..3414b0e 100644
--- a/internal/lsp/protocol/fs.go
+++ b/internal/lsp/protocol/fs.go
@@ -89,6 +89,7 @@ func (f *FileFS) ListFiles(ctx context.Context, base string) ([]TextDocumentIden
 	err := filepath.WalkDir(base, func(path string, info os.DirEntry, err error) error {
 		if err != nil {
 			log.Printf("FileFS.WalkDir error: %v", err)
+			return nil
 		}
 
 		if !info.IsDir() {
-- 
2.43.0


From 14cefbb91892f5cc421690a2ce8858cda24de199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:46 +0000
Subject: [PATCH 13/99] fix: do not crash on types which are a lone closing
 bracket

---
 analysis/symbolType.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/symbolType.go b/analysis/symbolType.go
index a64ef82..3a829fd 100644
--- a/analysis/symbolType.go
+++ b/analysis/symbolType.go
@@ -66,7 +66,7 @@ func (t *TypeString) MarshalJSON() ([]byte, error) {
 func (t TypeString) resolveRawWithArrayLevel() TypeString {
 	o := t.original
 	for i := len(o) - 1; i >= 0; i -= 2 {
-		if o[i] != ']' || o[i-1] != '[' {
+		if i == 0 || o[i] != ']' || o[i-1] != '[' {
 			t.original = o[:i+1]
 			break
 		}
-- 
2.43.0


From 3e6c4e9182fc52bbff510a6bb9cc0bb2b4fcbac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 14/99] fix: resolve the names of extended interfaces and leave
 fully qualified names alone

---
 analysis/importTable.go |  3 +++
 analysis/interface.go   | 10 +++++++++-
 analysis/store.go       |  3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index dfcd52c..7813a62 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -74,6 +74,9 @@ func (i *ImportTable) setNamespace(namespace *Namespace) {
 }
 
 func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
+	if IsFQN(name.GetFQN()) {
+		return name.GetFQN()
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if item, ok := i.classes[firstPart]; ok {
 		fqn := "\\" + item.name
diff --git a/analysis/interface.go b/analysis/interface.go
index 209dc85..2224dd5 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -85,7 +85,7 @@ func (s *Interface) extends(document *Document, node *phrase.Phrase) {
 			}
 			child = traverser.Advance()
 			for child != nil {
-				if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.QualifiedName {
+				if p, ok := child.(*phrase.Phrase); ok && (p.Type == phrase.QualifiedName || p.Type == phrase.FullyQualifiedName) {
 					s.Extends = append(s.Extends, transformQualifiedName(p, document))
 				}
 				child = traverser.Advance()
@@ -96,6 +96,14 @@ func (s *Interface) extends(document *Document, node *phrase.Phrase) {
 	}
 }
 
+// resolveExtends sets the FQNs of the extended interfaces
+func (s *Interface) resolveExtends(document *Document) {
+	importTable := document.ImportTableAtPos(s.location.Range.Start)
+	for i := range s.Extends {
+		s.Extends[i].SetFQN(importTable.GetClassReferenceFQN(s.Extends[i]))
+	}
+}
+
 func (s *Interface) GetLocation() protocol.Location {
 	return s.location
 }
diff --git a/analysis/store.go b/analysis/store.go
index c063d19..d494367 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -543,6 +543,9 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 	var referenceEntryInfos []entryInfo
 	var documentSymbols []documentSymbol
 	tra.traverseDocument(document, func(tra *traverser, child Symbol, _ []Symbol) {
+		if intf, ok := child.(*Interface); ok {
+			intf.resolveExtends(document)
+		}
 		if ser, ok := child.(serialisable); ok {
 			key := ser.GetKey()
 			if key == "" {
-- 
2.43.0


From e401737c9619fe89ddde3a2040c445562e81b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 15/99] fix: resolve function and constant names like PHP does

Names after an imported namespace lost their last part, fully qualified names
were looked up among imports, and global functions and constants won over those
of the current namespace.
---
 analysis/importTable.go | 68 +++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index 7813a62..e638554 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -91,7 +91,15 @@ func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
 	return name.GetFQN()
 }
 
+// importedFQN returns the FQN of the name which starts with the imported item
+func importedFQN(item *importItem, rest []string) string {
+	return strings.Join(append([]string{"\\" + item.name}, rest...), "\\")
+}
+
 func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		return name.GetFQN()
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	aliasTable := i.functions
 	if len(parts) > 0 {
@@ -99,21 +107,23 @@ func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
 	}
 
 	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	functions := q.GetFunctions(fqn)
-	if len(functions) > 0 {
-		return fqn
+		return importedFQN(item, parts)
 	}
+	globalName := name
+	globalName.SetNamespace("")
 	name.SetNamespace(i.GetNamespace())
+	// Only unqualified names fall back to the global functions
+	if len(parts) == 0 && len(q.GetFunctions(name.GetFQN())) == 0 &&
+		len(q.GetFunctions(globalName.GetFQN())) > 0 {
+		return globalName.GetFQN()
+	}
 	return name.GetFQN()
 }
 
 func (i ImportTable) FunctionPossibleFQNs(name TypeString) []string {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		return []string{name.GetFQN()}
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	aliasTable := i.functions
 	if len(parts) > 0 {
@@ -121,22 +131,25 @@ func (i ImportTable) FunctionPossibleFQNs(name TypeString) []string {
 	}
 	results := []string{}
 	if item, ok := aliasTable[firstPart]; ok {
-		results = append(results, "\\"+item.name)
+		results = append(results, importedFQN(item, parts))
 		return results
 	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	results = append(results, fqn)
+	globalName := name
+	globalName.SetNamespace("")
 	name.SetNamespace(i.GetNamespace())
-	if name.GetFQN() != fqn {
+	if len(parts) == 0 {
+		results = append(results, globalName.GetFQN())
+	}
+	if len(parts) > 0 || name.GetFQN() != globalName.GetFQN() {
 		results = append(results, name.GetFQN())
 	}
 	return results
 }
 
 func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		return name.GetFQN()
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	aliasTable := i.constants
 	if len(parts) > 0 {
@@ -144,23 +157,20 @@ func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
 	}
 
 	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	constants := q.GetConsts(fqn)
-	if len(constants) > 0 {
-		return fqn
+		return importedFQN(item, parts)
 	}
+	globalName := name
+	globalName.SetNamespace("")
+	name.SetNamespace(i.GetNamespace())
 	// TODO: Defines do not have implicit namespace except
 	// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
-	defines := q.GetDefines(fqn)
-	if len(defines) > 0 {
-		return fqn
+	isDefined := func(fqn string) bool {
+		return len(q.GetConsts(fqn)) > 0 || len(q.GetDefines(fqn)) > 0
+	}
+	// Only unqualified names fall back to the global constants
+	if len(parts) == 0 && !isDefined(name.GetFQN()) && isDefined(globalName.GetFQN()) {
+		return globalName.GetFQN()
 	}
-	name.SetNamespace(i.GetNamespace())
 	return name.GetFQN()
 }
 
-- 
2.43.0


From ec17ee2cb256991236d46cd663eabf69875ea6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 16/99] fix: keep class constants of different files apart and
 store their visibility

Looking up a class constant also found constants its name is a prefix of.
---
 analysis/classConst.go | 10 ++++++++--
 analysis/store.go      |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/analysis/classConst.go b/analysis/classConst.go
index c4036d4..a40f2d8 100644
--- a/analysis/classConst.go
+++ b/analysis/classConst.go
@@ -124,7 +124,7 @@ func (s *ClassConst) GetCollection() string {
 }
 
 func (s *ClassConst) GetKey() string {
-	return s.Scope.fqn + KeySep + s.Name
+	return s.Scope.fqn + KeySep + s.Name + KeySep + s.location.URI
 }
 
 func (s *ClassConst) GetIndexableName() string {
@@ -150,10 +150,11 @@ func (s *ClassConst) Serialise(e *storage.Encoder) {
 	e.WriteString(s.Value)
 	s.Scope.Write(e)
 	serialiseDeprecatedTag(e, s.deprecatedTag)
+	e.WriteInt(int(s.VisibilityModifier))
 }
 
 func ReadClassConst(d *storage.Decoder) *ClassConst {
-	return &ClassConst{
+	classConst := &ClassConst{
 		location:      d.ReadLocation(),
 		description:   d.ReadString(),
 		Name:          d.ReadString(),
@@ -161,6 +162,11 @@ func ReadClassConst(d *storage.Decoder) *ClassConst {
 		Scope:         ReadTypeString(d),
 		deprecatedTag: deserialiseDeprecatedTag(d),
 	}
+	// Class constants which were stored by older versions end here
+	if d.Len() > 0 {
+		classConst.VisibilityModifier = VisibilityModifierValue(d.ReadInt())
+	}
+	return classConst
 }
 
 func (s *ClassConst) ReferenceFQN() string {
diff --git a/analysis/store.go b/analysis/store.go
index d494367..66dd3c6 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -1037,7 +1037,10 @@ func (s *Store) GetClassConsts(scope string, name string) []*ClassConst {
 	classConsts := []*ClassConst{}
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		d := storage.NewDecoder(it.Value())
-		classConsts = append(classConsts, ReadClassConst(d))
+		// The key is also a prefix of the keys of longer names
+		if classConst := ReadClassConst(d); classConst.Name == name {
+			classConsts = append(classConsts, classConst)
+		}
 	})
 	return classConsts
 }
-- 
2.43.0


From 45b28e51966e8ce459940d952ead2df288777fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 17/99] fix: do not change the reference filter of a document
 while it is searched

---
 analysis/referenceIndex.go | 13 +++++++------
 analysis/store.go          |  2 ++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/analysis/referenceIndex.go b/analysis/referenceIndex.go
index aed7429..f83f9c6 100644
--- a/analysis/referenceIndex.go
+++ b/analysis/referenceIndex.go
@@ -97,13 +97,9 @@ func (i *referenceIndex) index(store *Store, doc *Document, batch storage.Batch,
 		return
 	}
 	canonicalURI := util.CanonicaliseURI(store.uri, uri)
+	// The current entry might be being searched therefore it is replaced
 	i.entries.Upsert(canonicalURI, newReferenceEntry(), func(ok bool, curr interface{}, new interface{}) interface{} {
-		var entry referenceEntry
-		if ok {
-			entry = curr.(referenceEntry)
-		} else {
-			entry = new.(referenceEntry)
-		}
+		entry := new.(referenceEntry)
 		dbEntry := newEntry(referenceIndexCollection, canonicalURI)
 		dbEntry.e.WriteInt(len(infos))
 		for _, info := range infos {
@@ -138,6 +134,11 @@ func (i *referenceIndex) deleteURI(store *Store, batch storage.Batch, uri string
 	}
 }
 
+// remove drops the entry of the deleted URI
+func (i *referenceIndex) remove(store *Store, uri string) {
+	i.entries.Remove(util.CanonicaliseURI(store.uri, uri))
+}
+
 func (i *referenceIndex) search(store *Store, ref string) []protocol.Location {
 	defer util.TimeTrack(time.Now(), "referenceIndex.search")
 	var results []protocol.Location
diff --git a/analysis/store.go b/analysis/store.go
index 66dd3c6..d7e3049 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -386,7 +386,9 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 	})
 	if err != nil {
 		log.Println(err)
+		return
 	}
+	s.refIndex.remove(s, uri)
 }
 
 // RemoveDocument deletes the document with the given URI, unless it has been
-- 
2.43.0


From f4e88f7f2161cc0ed1e0e7571c5d8c52b4b89b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 18/99] fix: guard the lists of stubs and folders against
 concurrent initialisation

---
 internal/lsp/symbol.go |  2 +-
 stub/stub.go           | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index 10d1be6..554d388 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -135,7 +135,7 @@ func (s *Server) workspaceSymbol(ctx context.Context, params *protocol.Workspace
 	symbols := []protocol.SymbolInformation{}
 	if params.Query != "" {
 		opts := baseSearchOptions()
-		for _, store := range s.store.stores {
+		for _, store := range s.store.allStores() {
 			classes, _ := store.SearchClasses(params.Query, opts)
 			for _, class := range classes {
 				symbols = append(symbols, protocol.SymbolInformation{
diff --git a/stub/stub.go b/stub/stub.go
index b2e9c25..6c42792 100644
--- a/stub/stub.go
+++ b/stub/stub.go
@@ -3,6 +3,7 @@ package stub
 import (
 	"log"
 	"strings"
+	"sync"
 )
 
 // WalkFunc is a callback function that is executed on every files in a stub
@@ -19,28 +20,30 @@ type Stubber interface {
 }
 
 var stubbers []Stubber = nil
+var stubbersOnce sync.Once
 var stubberPrefixes []string = nil
+var stubberPrefixesOnce sync.Once
 
 // GetStubbers initialises stubbers and returns them
 func GetStubbers() []Stubber {
-	if stubbers == nil {
+	stubbersOnce.Do(func() {
 		phpStorm, err := newPHPStormStub()
 		if err == nil {
 			stubbers = append(stubbers, phpStorm)
 		} else {
 			log.Println(err)
 		}
-	}
+	})
 	return stubbers
 }
 
 // GetStubberPrefixes gets stubbers and returns their prefixes
 func GetStubberPrefixes() []string {
-	if stubberPrefixes == nil {
+	stubberPrefixesOnce.Do(func() {
 		for _, stubber := range GetStubbers() {
 			stubberPrefixes = append(stubberPrefixes, stubber.Name()+"://")
 		}
-	}
+	})
 	return stubberPrefixes
 }
 
-- 
2.43.0


From 66fe75b39362b7a263a3d527d28a3b211de09cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 19/99] fix: mark completion lists as incomplete when any kind
 of symbols was truncated

---
 analysis/store.go          |  4 +++-
 internal/lsp/completion.go | 30 +++++++++++++++---------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index d7e3049..b74959b 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -725,16 +725,18 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 				return false
 			})
 		}
+		isComplete := true
 		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
 			if isSymbolValid(class, options) {
 				classes = append(classes, class)
 				if options.IsLimitReached() {
+					isComplete = false
 					return onDataResult{true}
 				}
 			}
 			return onDataResult{false}
 		})
-		return classes, SearchResult{true}
+		return classes, SearchResult{isComplete}
 	}
 	options.predicates = append(options.predicates, namespacePredicate(scope))
 	query := searchQuery{
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 10a691f..5bd9c44 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -216,25 +216,25 @@ func variableCompletion(ctx *completionContext, resolveCtx analysis.ResolveConte
 
 func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
-		IsIncomplete: true,
+		IsIncomplete: false,
 	}
 	store := ctx.query.Store()
 	opts := baseSearchOptions()
 	classes, searchResult := store.SearchClasses(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, label, textEdit))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	consts, searchResult := store.SearchConsts(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, constant := range consts {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, constant, constant.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -250,7 +250,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	defines, searchResult := store.SearchDefines(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, define := range defines {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, define, define.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -267,7 +267,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	functions, searchResult := store.SearchFunctions(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, function := range functions {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, function, function.Name, word)
 		insertText, textFormat, command := hasParamsInsertText(function, label)
@@ -301,7 +301,7 @@ func classCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 	}
 	store := ctx.query.Store()
 	classes, searchResult := store.SearchClasses(word, baseSearchOptions())
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
 		name, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
@@ -415,12 +415,12 @@ func memberAccessCompletion(ctx *completionContext, word string, access analysis
 
 func typeCompletion(ctx *completionContext, word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
-		IsIncomplete: true,
+		IsIncomplete: false,
 	}
 	opts := baseSearchOptions()
 	store := ctx.query.Store()
 	classes, searchResult := store.SearchClasses(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
@@ -437,7 +437,7 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 		})
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, theInterface := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, theInterface, theInterface.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -499,17 +499,17 @@ func useCompletion(ctx *completionContext, word string) *protocol.CompletionList
 		completionList.Items = append(completionList.Items, namespaceToCompletionItem(ns, word))
 	}
 	classes, searchResult := store.SearchClasses(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, class := range classes {
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, class.Name.GetOriginal(), nil))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, intf.Name.GetOriginal(), nil))
 	}
 	traits, searchResult := store.SearchTraits(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, trait := range traits {
 		completionList.Items = append(completionList.Items, traitToCompletionItem(trait, trait.Name.GetOriginal(), nil))
 	}
@@ -523,7 +523,7 @@ func interfaceCompletion(ctx *completionContext, word string) *protocol.Completi
 	opts := baseSearchOptions()
 	store := ctx.query.Store()
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, intf := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
@@ -539,7 +539,7 @@ func traitCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 	opts := baseSearchOptions()
 	store := ctx.query.Store()
 	traits, searchResult := store.SearchTraits(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, trait := range traits {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, trait, trait.Name, word)
-- 
2.43.0


From ce2024ab0ba92e15405da741be0c7559dc1ace91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 20/99] fix: do not answer with types which were resolved
 before the index changed

Symbols of open documents kept the types they were first resolved to, hence
changing a function in one file did not affect its callers in another file
until that file was edited.
---
 analysis/document.go       | 21 +++++++++++++++++++++
 analysis/store.go          | 11 +++++++++++
 internal/lsp/completion.go |  2 +-
 internal/lsp/definition.go |  2 +-
 internal/lsp/hover.go      |  2 +-
 internal/lsp/reference.go  |  4 ++--
 internal/lsp/signature.go  |  4 ++--
 internal/lsp/symbol.go     |  2 +-
 8 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 4157c6c..1555fc7 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -40,6 +40,9 @@ type Document struct {
 	insertUseContext   *InsertUseContext
 
 	blockStack []BlockSymbol
+
+	// generation is the state of the index the symbols have been resolved with
+	generation uint64
 }
 
 // MarshalJSON is used for json.Marshal
@@ -105,6 +108,24 @@ func (s *Document) Load() {
 	}
 }
 
+// refresh loads the symbols again if they might have been resolved with another
+// state of the index, because symbols retain what they are resolved to
+func (s *Document) refresh(generation uint64) {
+	if s.generation != generation {
+		s.generation = generation
+		s.Children = []Symbol{}
+		s.variableTables = nil
+		s.variableTableLevel = 0
+		s.classStack = nil
+		s.lastPhpDoc = nil
+		s.importTables = nil
+		s.insertUseContext = nil
+		s.blockStack = nil
+		s.hasChanges = true
+	}
+	s.Load()
+}
+
 // GetURI is a getter for uri
 func (s *Document) GetURI() string {
 	return s.uri
diff --git a/analysis/store.go b/analysis/store.go
index b74959b..deb809b 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/Masterminds/semver"
@@ -125,6 +126,8 @@ type Store struct {
 	isClosed bool
 	// uriMus serialises reading, indexing and deleting of a URI
 	uriMus [64]sync.Mutex
+	// generation is increased whenever the index changes
+	generation uint64
 
 	syncedDocumentURIs   cmap.ConcurrentMap
 	DebouncedDeprecation func(func())
@@ -389,6 +392,7 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 		return
 	}
 	s.refIndex.remove(s, uri)
+	atomic.AddUint64(&s.generation, 1)
 }
 
 // RemoveDocument deletes the document with the given URI, unless it has been
@@ -489,6 +493,13 @@ func (s *Store) SyncDocument(document *Document) {
 	if err != nil {
 		log.Print(err)
 	}
+	atomic.AddUint64(&s.generation, 1)
+}
+
+// LoadDocument makes sure that the symbols of the document are available and not
+// resolved with an older state of the index. The document must be locked
+func (s *Store) LoadDocument(document *Document) {
+	document.refresh(atomic.LoadUint64(&s.generation))
 }
 
 // SaveDocOnStore retains the document in memory
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 5bd9c44..3de380d 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -71,7 +71,7 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	}
 	document.Lock()
 	defer document.Unlock()
-	document.Load()
+	store.LoadDocument(document)
 	var completionList *protocol.CompletionList = nil
 	pos := params.Position
 	q := analysis.NewQuery(store)
diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index be1d7b5..cd1bacd 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -21,7 +21,7 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 	}
 	document.Lock()
 	defer document.Unlock()
-	document.Load()
+	store.LoadDocument(document)
 	q := analysis.NewQuery(store)
 	resolveCtx := analysis.NewResolveContext(q, document)
 	pos := params.TextDocumentPositionParams.Position
diff --git a/internal/lsp/hover.go b/internal/lsp/hover.go
index 38c4e3f..b051d40 100644
--- a/internal/lsp/hover.go
+++ b/internal/lsp/hover.go
@@ -22,7 +22,7 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 	resolveCtx := analysis.NewResolveContext(q, document)
 	document.Lock()
 	defer document.Unlock()
-	document.Load()
+	store.LoadDocument(document)
 	pos := params.TextDocumentPositionParams.Position
 	symbol := document.HasTypesAtPos(pos)
 	var hover *protocol.Hover = nil
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index f06788d..e558e2b 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -37,7 +37,7 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	}
 	document.Lock()
 	defer document.Unlock()
-	document.Load()
+	store.LoadDocument(document)
 	pos := params.TextDocumentPositionParams.Position
 	nodes := document.NodeSpineAt(document.OffsetAtPosition(pos))
 	// log.Printf("Reference: %v %s", pos, nodes)
@@ -101,7 +101,7 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 	}
 	doc.Lock()
 	defer doc.Unlock()
-	doc.Load()
+	store.LoadDocument(doc)
 	pos := params.Position
 	symbol := doc.HasTypesAtPos(pos)
 	result := &protocol.WorkspaceEdit{
diff --git a/internal/lsp/signature.go b/internal/lsp/signature.go
index 4d417ff..af2ccc8 100644
--- a/internal/lsp/signature.go
+++ b/internal/lsp/signature.go
@@ -31,7 +31,7 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 	}
 	document.Lock()
 	defer document.Unlock()
-	document.Load()
+	store.LoadDocument(document)
 	pos := params.TextDocumentPositionParams.Position
 	nodeStack := document.NodeSpineAt(document.OffsetAtPosition(pos))
 	if nodeStack.Parent().Type == phrase.ArrayInitialiserList {
@@ -67,7 +67,7 @@ func (s *Server) documentSignatures(ctx context.Context, params *protocol.TextDo
 	}
 	document.Lock()
 	defer document.Unlock()
-	document.Load()
+	store.LoadDocument(document)
 	results := []protocol.TextEdit{}
 	resolveCtx := analysis.NewResolveContext(analysis.NewQuery(store), document)
 	analysis.TraverseDocument(document, func(s analysis.Symbol) {
diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index 554d388..2ae6978 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -37,7 +37,7 @@ func (s *Server) documentSymbol(ctx context.Context, params *protocol.DocumentSy
 	}
 	document.Lock()
 	defer document.Unlock()
-	document.Load()
+	store.LoadDocument(document)
 
 	results := []protocol.DocumentSymbol{}
 	for _, child := range document.Children {
-- 
2.43.0


From 45dc320d95a9deb02dbe071f453b8df82732991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 21/99] fix: report deprecations of every open document

The debouncer was shared by all documents of a folder, so that changing one
document dropped the deprecations of the others, and it read documents which
were being changed.
---
 analysis/store.go           | 25 +++++++++++++++++++++----
 internal/lsp/diagnostics.go | 15 +++++++++++++--
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index deb809b..e859c47 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -129,8 +129,9 @@ type Store struct {
 	// generation is increased whenever the index changes
 	generation uint64
 
-	syncedDocumentURIs   cmap.ConcurrentMap
-	DebouncedDeprecation func(func())
+	syncedDocumentURIs cmap.ConcurrentMap
+	// deprecationDebouncers contains a debouncer per open document
+	deprecationDebouncers cmap.ConcurrentMap
 }
 
 func readDocumentSymbols(greb *pogreb.DB, e *entry, fn func(documentSymbol) bool) {
@@ -245,8 +246,8 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 		stubbers:  stubbers,
 		documents: cmap.New(),
 
-		syncedDocumentURIs:   cmap.New(),
-		DebouncedDeprecation: debounce.New(2 * time.Second),
+		syncedDocumentURIs:    cmap.New(),
+		deprecationDebouncers: cmap.New(),
 	}
 	return store, nil
 }
@@ -366,9 +367,25 @@ func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI, text
 // content is now the one which is on the disk
 func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 	s.documents.Remove(uri)
+	s.deprecationDebouncers.Remove(uri)
 	s.CompareAndIndexDocument(ctx, uri)
 }
 
+// IsCurrent returns true if the document is the one which is open
+func (s *Store) IsCurrent(document *Document) bool {
+	value, ok := s.documents.Get(document.GetURI())
+	return ok && value.(*Document) == document
+}
+
+// DebounceDeprecation calls fn once the document with the given URI has not
+// changed for a while
+func (s *Store) DebounceDeprecation(uri protocol.DocumentURI, fn func()) {
+	s.deprecationDebouncers.SetIfAbsent(uri, debounce.New(2*time.Second))
+	if debounced, ok := s.deprecationDebouncers.Get(uri); ok {
+		debounced.(func(func()))(fn)
+	}
+}
+
 // DeleteDocument deletes all symbols and indexes relating to the URI
 // this returns error if the disk cannot be written
 func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
diff --git a/internal/lsp/diagnostics.go b/internal/lsp/diagnostics.go
index 80e0bb4..1fe258c 100644
--- a/internal/lsp/diagnostics.go
+++ b/internal/lsp/diagnostics.go
@@ -10,10 +10,21 @@ import (
 )
 
 func (s *Server) provideDiagnostics(ctx context.Context, store *analysis.Store, document *analysis.Document) {
+	document.Lock()
 	diagnostics := analysis.GetParserDiagnostics(document)
 	diagnostics = append(diagnostics, analysis.UnusedDiagnostics(document)...)
-	store.DebouncedDeprecation(func() {
-		ctx = xcontext.Detach(ctx)
+	document.Unlock()
+	diagnostics = diagnostics[:len(diagnostics):len(diagnostics)]
+	store.DebounceDeprecation(document.GetURI(), func() {
+		// The document might have changed or have been closed in the meantime
+		defer store.LockURI(document.GetURI())()
+		if !store.IsCurrent(document) {
+			return
+		}
+		document.Lock()
+		defer document.Unlock()
+		store.LoadDocument(document)
+		ctx := xcontext.Detach(ctx)
 		params := &protocol.PublishDiagnosticsParams{
 			URI: document.GetURI(),
 			Diagnostics: append(diagnostics,
-- 
2.43.0


From e8e3c74a18c2fffcb8dab051019fb938b8e6e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 22/99] fix: resolve function calls with the imports of their
 own namespace

---
 analysis/functionCall.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index 554803e..c7797a5 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -79,7 +79,7 @@ func (s *FunctionCall) Resolve(ctx ResolveContext) {
 	q := ctx.query
 	s.hasResolved = true
 	typeString := NewTypeString(s.Name)
-	functions := q.GetFunctions(document.currImportTable().GetFunctionReferenceFQN(ctx.query, typeString))
+	functions := q.GetFunctions(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(ctx.query, typeString))
 	for _, function := range functions {
 		s.Type.merge(function.returnTypes)
 	}
@@ -94,7 +94,7 @@ func (s *FunctionCall) ResolveToHasParams(ctx ResolveContext) []HasParams {
 	typeString := NewTypeString(s.Name)
 	q := ctx.query
 	document := ctx.document
-	typeString.SetFQN(document.currImportTable().GetFunctionReferenceFQN(q, typeString))
+	typeString.SetFQN(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(q, typeString))
 	for _, function := range q.GetFunctions(typeString.GetFQN()) {
 		functions = append(functions, function)
 	}
-- 
2.43.0


From 1d757d9b5b5fb5d70959698281afc89f2f23b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 23/99] fix: find references of exactly the function or
 property which is asked for

The references of a function of a namespace included those of the global
function of the same name, and those of properties with an initial value
were not found from their declaration.
---
 internal/lsp/reference.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index e558e2b..287b64b 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -45,6 +45,11 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	fallbackHandler := func() {
 		sym := document.HasTypesAtPos(pos)
 		refs := analysis.SymToRefs(document, sym)
+		if call, ok := sym.(*analysis.FunctionCall); ok {
+			name := analysis.NewTypeString(call.Name)
+			q := analysis.NewQuery(store)
+			refs = []string{document.ImportTableAtPos(pos).GetFunctionReferenceFQN(q, name) + "()"}
+		}
 		for _, ref := range refs {
 			results = append(results, store.GetReferences(ref)...)
 		}
@@ -64,8 +69,9 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 			fallbackHandler()
 		}
 	case phrase.PropertyElement:
+		nameToken := nodes.Token()
 		ref := "."
-		ref += document.GetNodeText(&parent)
+		ref += document.GetNodeText(&nameToken)
 		results = append(results, store.GetReferences(ref)...)
 	case phrase.ClassDeclarationHeader,
 		phrase.InterfaceDeclarationHeader,
@@ -78,11 +84,9 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	case phrase.FunctionDeclarationHeader:
 		nameToken := nodes.Token()
 		name := analysis.NewTypeString(document.GetNodeText(&nameToken))
-		refs := document.ImportTableAtPos(document.NodeRange(nameToken).Start).FunctionPossibleFQNs(name)
-		for _, ref := range refs {
-			ref += "()"
-			results = append(results, store.GetReferences(ref)...)
-		}
+		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(nameToken).Start).GetNamespace())
+		ref := name.GetFQN() + "()"
+		results = append(results, store.GetReferences(ref)...)
 	default:
 		fallbackHandler()
 	}
-- 
2.43.0


From 056ae49bda290842e616492e22a066c734c565d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 24/99] fix: delete completion entries of symbols which no
 longer exist

Entries of namespaces are kept per document, because other documents can
still declare a namespace after it is removed from one of them.
---
 analysis/completionIndex.go |  2 +-
 analysis/store.go           | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/analysis/completionIndex.go b/analysis/completionIndex.go
index 82affd7..7d6545c 100644
--- a/analysis/completionIndex.go
+++ b/analysis/completionIndex.go
@@ -75,7 +75,7 @@ type completionIndexDeletor struct {
 func newCompletionIndexDeletor(db storage.DB, uri string) *completionIndexDeletor {
 	indexKeys := map[string]bool{}
 	keys := map[string]bool{}
-	entry := newEntry(documentCompletionIndex, uri)
+	entry := newEntry(documentCompletionIndex, uri+KeySep)
 	db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		keys[string(it.Key())] = true
 		d := storage.NewDecoder(it.Value())
diff --git a/analysis/store.go b/analysis/store.go
index e859c47..66548cb 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -395,8 +395,14 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 		return
 	}
 	err := s.db.WriteBatch(func(b storage.Batch) error {
-		ciDeletor := newCompletionIndexDeletor(s.db, uri)
-		ciDeletor.Delete(b)
+		err := s.comDB.WriteBatch(func(comB storage.Batch) error {
+			ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
+			ciDeletor.Delete(comB)
+			return nil
+		})
+		if err != nil {
+			return err
+		}
 		syDeletor := newSymbolDeletor(s.db, s.greb, uri)
 		syDeletor.Delete(b)
 		s.refIndex.deleteURI(s, b, uri)
@@ -500,6 +506,7 @@ func (s *Store) SyncDocument(document *Document) {
 
 			s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
 
+			ciDeletor.Delete(comB)
 			syDeletor.Delete(b)
 			entry := newEntry(documentCollection, document.GetURI())
 			b.Put(entry.getKeyBytes(), document.GetHash())
@@ -564,7 +571,7 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 	for _, impTable := range document.importTables {
 		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
 		for index, i := range is {
-			key := namespaceKey + KeySep + strconv.Itoa(index)
+			key := namespaceKey + KeySep + strconv.Itoa(index) + KeySep + document.GetURI()
 			s.indexName(comBatch, document, i, key)
 			ciDeletor.MarkNotDelete(document.GetURI(), i, key)
 		}
@@ -697,6 +704,7 @@ func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]strin
 		scope = ""
 	}
 	namespaces := []string{}
+	seen := mapset.New[string]()
 	collection := namespaceCompletionIndex
 	if len(scope) != 0 {
 		collection += KeySep + scope
@@ -706,7 +714,10 @@ func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]strin
 		keyword:    keyword,
 		onData: func(cv CompletionValue) onDataResult {
 			parts := strings.Split(string(cv), KeySep)
-			namespaces = append(namespaces, parts[0])
+			if !seen.Has(parts[0]) {
+				seen.Put(parts[0])
+				namespaces = append(namespaces, parts[0])
+			}
 			return onDataResult{false}
 		},
 	}
-- 
2.43.0


From a25e0ed2b9047c90f31e55c5ccb8b134a845384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 25/99] fix: keep track of stale symbols until they are deleted

When the process is killed after the list of the symbols of a document is
replaced but before the stale ones are deleted, nothing knows about them
anymore and they are never deleted.
---
 analysis/store.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 66548cb..715f6d0 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -172,6 +172,16 @@ func (d *symbolDeletor) MarkNotDelete(ser serialisable) {
 	d.symbols.Remove(ser.GetCollection() + KeySep + ser.GetKey())
 }
 
+// staleSymbols returns the symbols which are not marked
+func (d *symbolDeletor) staleSymbols() []documentSymbol {
+	symbols := []documentSymbol{}
+	d.symbols.Each(func(key string) {
+		parts := strings.SplitN(key, KeySep, 2)
+		symbols = append(symbols, documentSymbol{collection: parts[0], key: parts[1]})
+	})
+	return symbols
+}
+
 func (d *symbolDeletor) Delete(batch storage.Batch) {
 	d.symbols.Each(func(key string) {
 		batch.Delete([]byte(key))
@@ -498,13 +508,20 @@ func (s *Store) SyncDocument(document *Document) {
 		return
 	}
 	s.syncedDocumentURIs.Remove(document.GetURI())
+	var documentSymbols []documentSymbol
+	hasStaleSymbols := false
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		s.comDB.WriteBatch(func(comB storage.Batch) error {
 			ciDeletor := newCompletionIndexDeletor(s.comDB, document.GetURI())
 			syDeletor := newSymbolDeletor(s.db, s.greb, document.GetURI())
 			s.refIndex.deleteURI(s, b, document.GetURI())
 
-			s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
+			documentSymbols = s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
+			// The list is not written together with the symbols, so until they are
+			// written it has to contain the ones which are going to be deleted
+			staleSymbols := syDeletor.staleSymbols()
+			hasStaleSymbols = len(staleSymbols) > 0
+			s.indexDocumentSymbols(document, append(staleSymbols, documentSymbols...))
 
 			ciDeletor.Delete(comB)
 			syDeletor.Delete(b)
@@ -516,6 +533,8 @@ func (s *Store) SyncDocument(document *Document) {
 	})
 	if err != nil {
 		log.Print(err)
+	} else if hasStaleSymbols {
+		s.indexDocumentSymbols(document, documentSymbols)
 	}
 	atomic.AddUint64(&s.generation, 1)
 }
@@ -566,7 +585,7 @@ func (s *Store) getSyncedDocumentURIs() map[string][]byte {
 }
 
 func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, document *Document,
-	ciDeletor *completionIndexDeletor, syDeletor *symbolDeletor) {
+	ciDeletor *completionIndexDeletor, syDeletor *symbolDeletor) []documentSymbol {
 	var documentNamespaces []documentNamespace
 	for _, impTable := range document.importTables {
 		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
@@ -623,12 +642,12 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 			}
 		}
 	})
-	s.indexDocumentSymbols(document, batch, documentSymbols)
 	s.indexDocumentNamespaces(document, batch, documentNamespaces)
 	s.refIndex.index(s, document, batch, referenceEntryInfos)
+	return documentSymbols
 }
 
-func (s *Store) indexDocumentSymbols(document *Document, batch storage.Batch, symbols []documentSymbol) {
+func (s *Store) indexDocumentSymbols(document *Document, symbols []documentSymbol) {
 	uri := document.GetURI()
 	entry := newEntry(documentSymbolsCollection, uri)
 	entry.e.WriteInt(len(symbols))
-- 
2.43.0


From a726d0e75842e334ab119351496752e3b39234d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 26/99] fix: do not answer with cached members when some
 classes are already searched

Members of types which share parents with already searched types are
incomplete, so they must not be cached for other types of the same request.
---
 analysis/query.go | 75 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index 6c39e83..a26cf2a 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -295,6 +295,13 @@ func NewInheritedMethods(methods []MethodWithScope, searchedFQNs map[string]stru
 	}
 }
 
+// copy returns the same symbols without sharing them
+func (m InheritedMethods) copy() InheritedMethods {
+	result := EmptyInheritedMethods()
+	result.Merge(m)
+	return result
+}
+
 // Merge merges current inherited methods with others, this merges
 // the underlying methods and searched FQNs
 func (m *InheritedMethods) Merge(other InheritedMethods) {
@@ -399,7 +406,8 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 		searchedFQNs = map[string]struct{}{}
 	}
 	cacheKey := "ClassMethods" + sep + class.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isCacheable := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isCacheable {
 		if methods, ok := data.(InheritedMethods); ok {
 			return methods
 		}
@@ -438,7 +446,9 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 		}
 	}
 	methods.Merge(methodsFromInterfaces)
-	q.cache[cacheKey] = methods
+	if isCacheable {
+		q.cache[cacheKey] = methods.copy()
+	}
 	return methods
 }
 
@@ -451,7 +461,8 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 		searchedFQNs = make(map[string]struct{})
 	}
 	cacheKey := "InterfaceMethods" + sep + intf.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isCacheable := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isCacheable {
 		if methods, ok := data.(InheritedMethods); ok {
 			return methods
 		}
@@ -477,7 +488,9 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 			}
 		}
 	}
-	q.cache[cacheKey] = methods
+	if isCacheable {
+		q.cache[cacheKey] = methods.copy()
+	}
 	return methods
 }
 
@@ -503,7 +516,7 @@ func (q *Query) SearchClassMethods(class *Class, keyword string, searchedFQNs ma
 	}
 	methods := q.GetClassMethods(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := []MethodWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -523,7 +536,7 @@ func (q *Query) SearchInterfaceMethods(intf *Interface, keyword string, searched
 	}
 	methods := q.GetInterfaceMethods(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := []MethodWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -592,6 +605,13 @@ func NewInheritedClassConst(consts []ClassConstWithScope, searchedFQNs map[strin
 	}
 }
 
+// copy returns the same symbols without sharing them
+func (c InheritedClassConst) copy() InheritedClassConst {
+	result := EmptyInheritedClassConst()
+	result.Merge(c)
+	return result
+}
+
 // Merge merges current inherited class consts with others
 func (c *InheritedClassConst) Merge(other InheritedClassConst) {
 	c.Consts = append(c.Consts, other.Consts...)
@@ -638,7 +658,8 @@ func (q *Query) GetClassConsts(scope string, name string) []*ClassConst {
 // GetClassClassConsts returns the inherited class const
 func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[string]struct{}) InheritedClassConst {
 	cacheKey := "ClassClassConst" + sep + class.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isCacheable := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isCacheable {
 		if classConsts, ok := data.(InheritedClassConst); ok {
 			return classConsts
 		}
@@ -678,7 +699,9 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 		}
 	}
 	classConsts.Merge(classConstsFromInterfaces)
-	q.cache[cacheKey] = classConsts
+	if isCacheable {
+		q.cache[cacheKey] = classConsts.copy()
+	}
 	return classConsts
 }
 
@@ -691,7 +714,8 @@ func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQ
 		searchedFQNs = make(map[string]struct{})
 	}
 	cacheKey := "InterfaceClassConst" + sep + intf.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isCacheable := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isCacheable {
 		if cc, ok := data.(InheritedClassConst); ok {
 			return cc
 		}
@@ -718,7 +742,9 @@ func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQ
 			}
 		}
 	}
-	q.cache[cacheKey] = classConsts
+	if isCacheable {
+		q.cache[cacheKey] = classConsts.copy()
+	}
 	return classConsts
 }
 
@@ -729,7 +755,7 @@ func (q *Query) SearchClassClassConsts(class *Class, keyword string, searchedFQN
 	}
 	classConsts := q.GetClassClassConsts(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := []ClassConstWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -749,7 +775,7 @@ func (q *Query) SearchInterfaceClassConsts(intf *Interface, keyword string, sear
 	}
 	classConsts := q.GetInterfaceClassConsts(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := []ClassConstWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -818,6 +844,13 @@ func NewInheritedProps(props []PropWithScope, searchedFQNs map[string]struct{})
 	}
 }
 
+// copy returns the same symbols without sharing them
+func (p InheritedProps) copy() InheritedProps {
+	result := EmptyInheritedProps()
+	result.Merge(p)
+	return result
+}
+
 // Merge merges the current inherited props with others
 func (p *InheritedProps) Merge(other InheritedProps) {
 	p.Props = append(p.Props, other.Props...)
@@ -894,7 +927,8 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 		searchedFQNs = map[string]struct{}{}
 	}
 	cacheKey := "ClassProps" + sep + class.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isCacheable := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isCacheable {
 		if p, ok := data.(InheritedProps); ok {
 			return p
 		}
@@ -924,7 +958,9 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 		}
 	}
 	props.Merge(propsFromInterfaces)
-	q.cache[cacheKey] = props
+	if isCacheable {
+		q.cache[cacheKey] = props.copy()
+	}
 	return props
 }
 
@@ -937,7 +973,8 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 		searchedFQNs = make(map[string]struct{})
 	}
 	cacheKey := "InterfaceProps" + sep + intf.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isCacheable := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isCacheable {
 		if p, ok := data.(InheritedProps); ok {
 			return p
 		}
@@ -962,7 +999,9 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 			}
 		}
 	}
-	q.cache[cacheKey] = props
+	if isCacheable {
+		q.cache[cacheKey] = props.copy()
+	}
 	return props
 }
 
@@ -973,7 +1012,7 @@ func (q *Query) SearchClassProps(class *Class, keyword string, searchedFQNs map[
 	}
 	props := q.GetClassProps(class, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := []PropWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
@@ -993,7 +1032,7 @@ func (q *Query) SearchInterfaceProps(intf *Interface, keyword string, searchedFQ
 	}
 	props := q.GetInterfaceProps(intf, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := []PropWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
-- 
2.43.0


From 3254195ca6581e9dd406ffd39e41929112dd62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 27/99] fix: do not crash or hang on texts which the parser
 cannot handle

---
 analysis/document.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 1555fc7..5cc2584 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha1"
 	"encoding/json"
+	"log"
 	"regexp"
 	"sort"
 	"sync"
@@ -88,11 +89,28 @@ func (s *Document) IsOpen() bool {
 func (s *Document) GetRootNode() *phrase.Phrase {
 	if s.rootNode == nil {
 		defer util.TimeTrack(time.Now(), "GetRootNode")
-		s.rootNode = parser.Parse(s.GetText())
+		s.rootNode = parse(s.GetText())
 	}
 	return s.rootNode
 }
 
+// parse parses the text, texts which the parser cannot handle are treated as if
+// they are empty
+func parse(text []byte) (rootNode *phrase.Phrase) {
+	defer func() {
+		if r := recover(); r != nil {
+			log.Printf("parse panicked: %v", r)
+			rootNode = parser.Parse([]byte{})
+		}
+	}()
+	if len(text) > 0 && text[len(text)-1] != '\n' {
+		// The parser does not stop at unterminated doc comments at the end of the
+		// text if there is no line ending
+		text = append(text[:len(text):len(text)], '\n')
+	}
+	return parser.Parse(text)
+}
+
 // Load makes sure that symbols are available
 func (s *Document) Load() {
 	if !s.hasChanges {
@@ -288,7 +306,7 @@ func (s *Document) GetNodeLocation(node phrase.AstNode) protocol.Location {
 }
 
 func (s *Document) getTokenText(t *lexer.Token) string {
-	return string(s.text[t.Offset : t.Offset+t.Length])
+	return s.textBetween(t.Offset, t.Offset+t.Length)
 }
 
 func (s *Document) getPhraseText(p *phrase.Phrase) string {
@@ -296,7 +314,19 @@ func (s *Document) getPhraseText(p *phrase.Phrase) string {
 	if firstToken == nil || lastToken == nil {
 		return ""
 	}
-	return string(s.text[firstToken.Offset : lastToken.Offset+lastToken.Length])
+	return s.textBetween(firstToken.Offset, lastToken.Offset+lastToken.Length)
+}
+
+// textBetween returns the text between the offsets, the last token can end after
+// the text, see parse
+func (s *Document) textBetween(start, end int) string {
+	if end > len(s.text) {
+		end = len(s.text)
+	}
+	if start > end {
+		return ""
+	}
+	return string(s.text[start:end])
 }
 
 func (s *Document) GetNodeText(node phrase.AstNode) string {
-- 
2.43.0


From fa779c07e5a8e5de2c1985113f8a2a71fa9bc20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:47 +0000
Subject: [PATCH 28/99] fix: find the first and last tokens of phrases with
 empty phrases at their ends

---
 util/parser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/util/parser.go b/util/parser.go
index 3e0afe1..16a9488 100644
--- a/util/parser.go
+++ b/util/parser.go
@@ -13,8 +13,12 @@ func FirstToken(node phrase.AstNode) *lexer.Token {
 	if e, ok := node.(*phrase.ParseError); ok {
 		return e.Unexpected
 	}
-	if p, ok := node.(*phrase.Phrase); ok && len(p.Children) != 0 {
-		return FirstToken(p.Children[0])
+	if p, ok := node.(*phrase.Phrase); ok {
+		for _, child := range p.Children {
+			if t := FirstToken(child); t != nil {
+				return t
+			}
+		}
 	}
 	return nil
 }
@@ -27,8 +31,12 @@ func LastToken(node phrase.AstNode) *lexer.Token {
 	if e, ok := node.(*phrase.ParseError); ok {
 		return e.Unexpected
 	}
-	if p, ok := node.(*phrase.Phrase); ok && len(p.Children) != 0 {
-		return LastToken(p.Children[len(p.Children)-1])
+	if p, ok := node.(*phrase.Phrase); ok {
+		for i := len(p.Children) - 1; i >= 0; i-- {
+			if t := LastToken(p.Children[i]); t != nil {
+				return t
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 9b64ef0a204054812d1262b28a64ac8ba8040801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 29/99] fix: go to the definition of interfaces in instanceof
 and constant accesses

---
 internal/lsp/definition.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index cd1bacd..aaa02f0 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -41,9 +41,13 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 		}
 	case *analysis.ClassAccess:
 		for _, typeString := range v.Type.Resolve() {
-			for _, theClass := range q.GetClasses(document.ImportTableAtPos(pos).GetClassReferenceFQN(typeString)) {
+			fqn := document.ImportTableAtPos(pos).GetClassReferenceFQN(typeString)
+			for _, theClass := range q.GetClasses(fqn) {
 				locations = append(locations, theClass.GetLocation())
 			}
+			for _, theInterface := range q.GetInterfaces(fqn) {
+				locations = append(locations, theInterface.GetLocation())
+			}
 		}
 	case *analysis.InterfaceAccess:
 		for _, typeString := range v.Type.Resolve() {
-- 
2.43.0


From 4766cb51cc957436000ed206ab76be3b87fa751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:45 +0000
Subject: [PATCH 30/99] fix: do not treat code in front of a class as code of
 the class

---
 analysis/document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/document.go b/analysis/document.go
index 5cc2584..38949ce 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -483,7 +483,7 @@ func (s *Document) getClassAtPos(pos protocol.Position) Symbol {
 	index := sort.Search(len(s.classStack), func(i int) bool {
 		return protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) <= 0
 	})
-	if index >= len(s.classStack) {
+	if index >= len(s.classStack) || protocol.IsInRange(pos, s.classStack[index].GetLocation().Range) != 0 {
 		return nil
 	}
 	return s.classStack[index]
-- 
2.43.0


From 49953a8365f551121d3e5cee35181e7eac054d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:03 +0000
Subject: [PATCH 31/99] fix: find references from declarations in any namespace
 of the file

NodeRange was given a token by value, which it does not know, so the first namespace of the file was used for all declarations.
---
 internal/lsp/reference.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index 287b64b..36ae572 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -78,13 +78,13 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 		phrase.TraitDeclarationHeader:
 		nameToken := nodes.Token()
 		name := analysis.NewTypeString(document.GetNodeText(&nameToken))
-		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(nameToken).Start).GetNamespace())
+		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(&nameToken).Start).GetNamespace())
 		ref := name.GetFQN()
 		results = append(results, store.GetReferences(ref)...)
 	case phrase.FunctionDeclarationHeader:
 		nameToken := nodes.Token()
 		name := analysis.NewTypeString(document.GetNodeText(&nameToken))
-		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(nameToken).Start).GetNamespace())
+		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(&nameToken).Start).GetNamespace())
 		ref := name.GetFQN() + "()"
 		results = append(results, store.GetReferences(ref)...)
 	default:
-- 
2.43.0


From 278ce6a78ff29dabdef605df3230e023bdd58835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 32/99] fix: keep the symbols of open documents whose files are
 deleted

The text in the editor stays, it is forgotten when the document is closed.
---
 analysis/store.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/analysis/store.go b/analysis/store.go
index 715f6d0..e7322c0 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -429,9 +429,13 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 }
 
 // RemoveDocument deletes the document with the given URI, unless it has been
-// created again in the meantime
+// created again in the meantime or the editor still has it open
 func (s *Store) RemoveDocument(ctx context.Context, uri protocol.DocumentURI) {
 	unlock := s.LockURI(uri)
+	if _, isOpen := s.documents.Get(uri); isOpen {
+		unlock()
+		return
+	}
 	if _, err := s.FS.ReadFile(ctx, uri); err != nil {
 		s.DeleteDocument(uri)
 		unlock()
-- 
2.43.0


From b1e176e79e6380f435c328d2e429e5ebf37eb687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:17 +0000
Subject: [PATCH 33/99] fix: forget documents which are being indexed while
 their folder is deleted

---
 analysis/store.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analysis/store.go b/analysis/store.go
index e7322c0..80b2017 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -447,6 +447,12 @@ func (s *Store) RemoveDocument(ctx context.Context, uri protocol.DocumentURI) {
 
 // RemoveFolder searches for documents inside the folder and triggers `RemoveDocument`
 func (s *Store) RemoveFolder(ctx context.Context, uri protocol.DocumentURI) {
+	// Documents which are being indexed might have been read before the folder
+	// was deleted, they cannot be found until they are written
+	for i := range s.uriMus {
+		s.uriMus[i].Lock()
+		s.uriMus[i].Unlock()
+	}
 	for _, uri := range s.documentURIsInFolder(uri) {
 		s.RemoveDocument(ctx, uri)
 	}
-- 
2.43.0


From 782e43474203fd01bf2be7a4238eae4bc3ebd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:29 +0000
Subject: [PATCH 34/99] fix: do not index files which are not PHP when they are
 deleted and created again

---
 analysis/store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analysis/store.go b/analysis/store.go
index 80b2017..3c18b55 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -442,7 +442,9 @@ func (s *Store) RemoveDocument(ctx context.Context, uri protocol.DocumentURI) {
 		return
 	}
 	unlock()
-	s.CompareAndIndexDocument(ctx, uri)
+	if strings.HasSuffix(uri, ".php") {
+		s.CompareAndIndexDocument(ctx, uri)
+	}
 }
 
 // RemoveFolder searches for documents inside the folder and triggers `RemoveDocument`
-- 
2.43.0


From 722ca40b955316c8224c215968a4d86f2f2bd461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:37 +0000
Subject: [PATCH 35/99] fix: use the correct positions of names which start
 with non-ASCII characters

The lexer advances its offset by the size of the next character instead of the
current one, so tokens which start with a multi-byte character lost their first
bytes and everything was shifted in files which start with a byte order mark.
---
 analysis/document.go | 51 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/analysis/document.go b/analysis/document.go
index 38949ce..e117cfb 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -108,7 +108,56 @@ func parse(text []byte) (rootNode *phrase.Phrase) {
 		// text if there is no line ending
 		text = append(text[:len(text):len(text)], '\n')
 	}
-	return parser.Parse(text)
+	rootNode = parser.Parse(text)
+	correctOffsets(rootNode, text)
+	return rootNode
+}
+
+// correctOffsets corrects the tokens of texts with multi-byte characters, the
+// lexer advances by the size of the next character instead of the current one
+func correctOffsets(rootNode *phrase.Phrase, text []byte) {
+	if utf8.RuneCount(text) == len(text) {
+		return
+	}
+	offsets := make([]int, len(text)+2)
+	lexed := 0
+	for i := 0; i < len(text); {
+		_, size := utf8.DecodeRune(text[i:])
+		if i > 0 {
+			lexed += size
+		}
+		offsets[lexed] = i
+		i += size
+	}
+	offsets[lexed+1] = len(text)
+
+	visited := map[*lexer.Token]struct{}{}
+	correct := func(t *lexer.Token) {
+		if _, ok := visited[t]; ok || t == nil {
+			return
+		}
+		visited[t] = struct{}{}
+		end := offsets[t.Offset+t.Length]
+		t.Offset = offsets[t.Offset]
+		t.Length = end - t.Offset
+	}
+	var walk func(node phrase.AstNode)
+	walk = func(node phrase.AstNode) {
+		switch n := node.(type) {
+		case *lexer.Token:
+			correct(n)
+		case *phrase.Phrase:
+			for _, child := range n.Children {
+				walk(child)
+			}
+		case *phrase.ParseError:
+			correct(n.Unexpected)
+			for _, child := range n.Children {
+				walk(child)
+			}
+		}
+	}
+	walk(rootNode)
 }
 
 // Load makes sure that symbols are available
-- 
2.43.0


From 1abb181a47e0f89e872314323bce7672db67ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:12 +0000
Subject: [PATCH 36/99] fix: treat differently escaped URIs as the same
 document

Clients may escape characters which Go does not escape, e.g. VS Code escapes +
and parentheses. Such documents were indexed twice once they were opened, and
folders with such names were not indexed at all.
---
 internal/lsp/completion.go     |  2 +-
 internal/lsp/definition.go     |  2 +-
 internal/lsp/hover.go          |  2 +-
 internal/lsp/reference.go      |  6 +++---
 internal/lsp/signature.go      |  2 +-
 internal/lsp/symbol.go         |  4 ++--
 internal/lsp/sync.go           |  4 ++--
 internal/lsp/workspaceStore.go | 13 ++++++++++++-
 8 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 3de380d..66696d3 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -60,7 +60,7 @@ func (i incompleteMemberAccess) ScopeName() string {
 
 func (s *Server) completion(ctx context.Context, params *protocol.CompletionParams) (*protocol.CompletionList, error) {
 	defer util.TimeTrack(time.Now(), "completion")
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := normaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index aaa02f0..744867d 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -10,7 +10,7 @@ import (
 
 func (s *Server) definition(ctx context.Context, params *protocol.DefinitionParams) ([]protocol.Location, error) {
 	locations := []protocol.Location{}
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := normaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
diff --git a/internal/lsp/hover.go b/internal/lsp/hover.go
index b051d40..55a3ee0 100644
--- a/internal/lsp/hover.go
+++ b/internal/lsp/hover.go
@@ -9,7 +9,7 @@ import (
 )
 
 func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*protocol.Hover, error) {
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := normaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index 36ae572..f96cc0b 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -26,7 +26,7 @@ func classScopeFQNAt(document *analysis.Document, pos protocol.Position) string
 
 func (s *Server) references(ctx context.Context, params *protocol.ReferenceParams) ([]protocol.Location, error) {
 	results := []protocol.Location{}
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := normaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
@@ -94,7 +94,7 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 }
 
 func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*protocol.WorkspaceEdit, error) {
-	uri := params.TextDocument.URI
+	uri := normaliseURI(params.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
@@ -122,7 +122,7 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 					NewText: params.NewName,
 				})
 			}
-			result.Changes[uri] = changes
+			result.Changes[params.TextDocument.URI] = changes
 		}
 	}
 	return result, nil
diff --git a/internal/lsp/signature.go b/internal/lsp/signature.go
index af2ccc8..0ccec8c 100644
--- a/internal/lsp/signature.go
+++ b/internal/lsp/signature.go
@@ -20,7 +20,7 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 		ActiveSignature: 0,
 		ActiveParameter: 0,
 	}
-	uri := params.TextDocumentPositionParams.TextDocument.URI
+	uri := normaliseURI(params.TextDocumentPositionParams.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil, nil
diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index 2ae6978..628d327 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -26,8 +26,8 @@ func toDocumentSymbolRecursive(symbol analysis.Symbol) protocol.DocumentSymbol {
 
 func (s *Server) documentSymbol(ctx context.Context, params *protocol.DocumentSymbolParams) ([]protocol.DocumentSymbol, error) {
 	symbols := []protocol.DocumentSymbol{}
-	uri := params.TextDocument.URI
-	store := s.store.getStore(params.TextDocument.URI)
+	uri := normaliseURI(params.TextDocument.URI)
+	store := s.store.getStore(uri)
 	if store == nil {
 		return symbols, nil
 	}
diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index a0cbd7d..d3ba056 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -14,7 +14,7 @@ import (
 )
 
 func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocumentParams) error {
-	uri := params.TextDocument.URI
+	uri := normaliseURI(params.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil
@@ -29,7 +29,7 @@ func (s *Server) didChange(ctx context.Context, params *protocol.DidChangeTextDo
 }
 
 func (s *Server) didClose(ctx context.Context, params *protocol.DidCloseTextDocumentParams) error {
-	uri := params.TextDocument.URI
+	uri := normaliseURI(params.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
 		return nil
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 89e5015..6088230 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -100,7 +100,17 @@ func (s *workspaceStore) close() {
 	}
 }
 
+// normaliseURI returns the URI in the encoding which is used for indexed documents,
+// because clients are free to escape more characters
+func normaliseURI(uri protocol.DocumentURI) protocol.DocumentURI {
+	if normalised, err := util.DecodeURIFromQuery(uri); err == nil {
+		return normalised
+	}
+	return uri
+}
+
 func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
+	uri = normaliseURI(uri)
 	u, err := url.Parse(uri)
 	if err != nil {
 		log.Printf("%s: %v", uri, err)
@@ -149,6 +159,7 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 }
 
 func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
+	uri = normaliseURI(uri)
 	for _, store := range s.allStores() {
 		if store.GetURI() == uri {
 			defer store.Close()
@@ -254,7 +265,7 @@ func (s *workspaceStore) removeDocument(ctx context.Context, store *analysis.Sto
 }
 
 func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
-	uri := params.TextDocument.URI
+	uri := normaliseURI(params.TextDocument.URI)
 	store := s.getStore(uri)
 	if store == nil {
 		return nil
-- 
2.43.0


From 32f5e1c3c02c43ddef790943eb75a52f32d2f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:25 +0000
Subject: [PATCH 37/99] fix: only offer names of the namespace which has been
 typed

Qualified words found the classes of sub-namespaces as well, which cannot be
written with the word, and no constants at all.
---
 analysis/const.go  | 8 ++++++++
 analysis/define.go | 8 ++++++++
 analysis/store.go  | 6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/analysis/const.go b/analysis/const.go
index 84c0e88..9f27d24 100644
--- a/analysis/const.go
+++ b/analysis/const.go
@@ -90,6 +90,14 @@ func (s *Const) GetIndexableName() string {
 	return s.Name.GetOriginal()
 }
 
+func (s *Const) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+func (s *Const) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Const) GetIndexCollection() string {
 	return constCompletionIndex
 }
diff --git a/analysis/define.go b/analysis/define.go
index 1db9bbd..2c27a52 100644
--- a/analysis/define.go
+++ b/analysis/define.go
@@ -119,6 +119,14 @@ func (s *Define) GetIndexableName() string {
 	return s.Name.GetOriginal()
 }
 
+func (s *Define) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+func (s *Define) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Define) GetIndexCollection() string {
 	return defineCompletionIndex
 }
diff --git a/analysis/store.go b/analysis/store.go
index 3c18b55..4df7529 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -787,6 +787,8 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	classes := []*Class{}
 	if scope != "" {
+		// The names of the scope are also the prefix of the ones in its sub-namespaces
+		options = options.WithPredicate(namespacePredicate(scope))
 		if keyword != "" {
 			options = options.WithPredicate(func(s Symbol) bool {
 				if v, ok := s.(*Class); ok {
@@ -977,7 +979,9 @@ func (s *Store) GetConsts(name string) []*Const {
 
 // SearchConsts uses completion index to search constants matching the given keyword
 func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
 	consts := []*Const{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
 	query := searchQuery{
 		collection: constCompletionIndex,
 		keyword:    keyword,
@@ -1015,7 +1019,9 @@ func (s *Store) GetDefines(name string) []*Define {
 
 // SearchDefines uses completion index to search `define()`s matching the given keyword
 func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define, SearchResult) {
+	scope, keyword := GetScopeAndNameFromString(keyword)
 	defines := []*Define{}
+	options.predicates = append(options.predicates, namespacePredicate(scope))
 	query := searchQuery{
 		collection: defineCompletionIndex,
 		keyword:    keyword,
-- 
2.43.0


From a075e94881dc4224e7504a6ef204e8100b4bbb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:38 +0000
Subject: [PATCH 38/99] fix: insert uses into the namespace which is being
 edited

They went to the last namespace of the file, behind the brace which closes
it, in front of declare(strict_types=1), and repeated the text which the line
of the previous use starts with.
---
 analysis/document.go    |  2 -
 analysis/importTable.go |  2 +-
 analysis/insertUse.go   | 87 ++++++++++++++++++++++++++++++-----------
 3 files changed, 66 insertions(+), 25 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index e117cfb..2b8b38a 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -38,7 +38,6 @@ type Document struct {
 	lastPhpDoc         *phpDocComment
 	hasChanges         bool
 	importTables       []*ImportTable
-	insertUseContext   *InsertUseContext
 
 	blockStack []BlockSymbol
 
@@ -186,7 +185,6 @@ func (s *Document) refresh(generation uint64) {
 		s.classStack = nil
 		s.lastPhpDoc = nil
 		s.importTables = nil
-		s.insertUseContext = nil
 		s.blockStack = nil
 		s.hasChanges = true
 	}
diff --git a/analysis/importTable.go b/analysis/importTable.go
index e638554..4161b43 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -208,7 +208,7 @@ func (i ImportTable) ResolveToQualified(document *Document, symbol Symbol, name
 		}
 	}
 	// Anything below will require insert use
-	insertUse := GetInsertUseContext(document)
+	insertUse := i.getInsertUseContext(document)
 	// Calculate what to inlude in insert use, because it is possible
 	// that the current word has a scope, e.g. TestNamespace1\Class.
 	// Therefore, it only needs `use TestNamespace1;`
diff --git a/analysis/insertUse.go b/analysis/insertUse.go
index a24948a..4d1b034 100644
--- a/analysis/insertUse.go
+++ b/analysis/insertUse.go
@@ -1,6 +1,9 @@
 package analysis
 
 import (
+	"bytes"
+
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -9,40 +12,68 @@ import (
 type InsertUseContext struct {
 	document     *Document
 	firstInline  *phrase.Phrase
+	firstDeclare *phrase.Phrase
 	namespaceDef *phrase.Phrase
 	lastUse      *phrase.Phrase
 }
 
+// GetInsertUseContext finds where to insert a use into the last namespace of the document
 func GetInsertUseContext(document *Document) InsertUseContext {
-	if document.insertUseContext != nil {
-		return *document.insertUseContext
-	}
-	insertUseCtx := InsertUseContext{
-		document:     document,
-		firstInline:  nil,
-		namespaceDef: nil,
-		lastUse:      nil,
-	}
-	traverser := util.NewTraverser(document.GetRootNode())
-	child := traverser.Advance()
-	for child != nil {
-		if p, ok := child.(*phrase.Phrase); ok {
-			switch p.Type {
-			case phrase.InlineText:
-				if insertUseCtx.firstInline == nil {
-					insertUseCtx.firstInline = p
-				}
-			case phrase.NamespaceDefinition:
+	return document.currImportTable().getInsertUseContext(document)
+}
+
+// getInsertUseContext finds where to insert a use which is added to this table
+func (i ImportTable) getInsertUseContext(document *Document) InsertUseContext {
+	insertUseCtx := InsertUseContext{document: document}
+	isInTable := i.namespace == nil
+	isFirst := true
+	for _, child := range document.GetRootNode().Children {
+		p, ok := child.(*phrase.Phrase)
+		if !ok {
+			continue
+		}
+		switch p.Type {
+		case phrase.InlineText:
+			if insertUseCtx.firstInline == nil {
+				insertUseCtx.firstInline = p
+			}
+			continue
+		case phrase.DeclareStatement:
+			// Nothing but an opening tag is allowed before declare(strict_types=1)
+			if isFirst {
+				insertUseCtx.firstDeclare = p
+			}
+		case phrase.NamespaceDefinition:
+			isInTable = i.namespace != nil && document.positionAt(util.FirstToken(p).Offset) == i.start
+			if isInTable {
 				insertUseCtx.namespaceDef = p
-			case phrase.NamespaceUseDeclaration:
+				insertUseCtx.lastUse = lastUseOfBlock(p)
+			}
+		case phrase.NamespaceUseDeclaration:
+			if isInTable {
 				insertUseCtx.lastUse = p
 			}
 		}
-		child = traverser.Advance()
+		isFirst = false
 	}
 	return insertUseCtx
 }
 
+// lastUseOfBlock returns the last use inside of the braces of the namespace
+func lastUseOfBlock(namespaceDef *phrase.Phrase) *phrase.Phrase {
+	var lastUse *phrase.Phrase
+	for _, child := range namespaceDef.Children {
+		if list, ok := util.IsOfPhraseType(child, phrase.StatementList); ok {
+			for _, statement := range list.Children {
+				if p, ok := util.IsOfPhraseType(statement, phrase.NamespaceUseDeclaration); ok {
+					lastUse = p
+				}
+			}
+		}
+	}
+	return lastUse
+}
+
 func (i InsertUseContext) GetInsertAfterNode() *phrase.Phrase {
 	if i.lastUse != nil {
 		return i.lastUse
@@ -50,6 +81,9 @@ func (i InsertUseContext) GetInsertAfterNode() *phrase.Phrase {
 	if i.namespaceDef != nil {
 		return i.namespaceDef
 	}
+	if i.firstDeclare != nil {
+		return i.firstDeclare
+	}
 	if i.firstInline != nil {
 		return i.firstInline
 	}
@@ -61,6 +95,14 @@ func (i InsertUseContext) GetInsertPosition() (protocol.Position, bool) {
 	afterNode := i.GetInsertAfterNode()
 	if afterNode != nil {
 		lastToken := util.LastToken(afterNode)
+		if afterNode.Type == phrase.NamespaceDefinition {
+			for _, child := range afterNode.Children {
+				if t, ok := child.(*lexer.Token); ok && t.Type == lexer.OpenBrace {
+					lastToken = t
+					break
+				}
+			}
+		}
 		return i.document.positionAt(lastToken.Offset + lastToken.Length), true
 	}
 	return protocol.Position{}, false
@@ -110,7 +152,8 @@ func getIndentation(document *Document, node *phrase.Phrase) string {
 		Line:      tokenStartPosition.Line,
 		Character: 0,
 	})
-	return string(document.GetText()[startOffset:firstToken.Offset])
+	line := document.GetText()[startOffset:firstToken.Offset]
+	return string(line[:len(line)-len(bytes.TrimLeft(line, " \t"))])
 }
 
 func getNewLine(document *Document, node *phrase.Phrase) string {
-- 
2.43.0


From e3c1df973af94e4b136ff5991104db9d3b015546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 39/99] fix: complete names which refer to the completed symbol

The short name was inserted, or imported, although it is already the name of
something else in the file, imported functions and constants were imported
again, and namespaces of more than one part were imported as a whole.
---
 analysis/importTable.go    | 131 +++++++++++++++++++++++++++----------
 internal/lsp/completion.go |  77 +++++++++++++++++-----
 2 files changed, 159 insertions(+), 49 deletions(-)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index 4161b43..c5ecda3 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -174,22 +174,64 @@ func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
 	return name.GetFQN()
 }
 
+// ResolveToQualified returns what has to be written after the namespace in word to refer to
+// the symbol, and the use which has to be inserted for it. There might not be such a name, in
+// which case it is empty.
 func (i ImportTable) ResolveToQualified(document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
-	if IsFQN(word) {
+	if strings.HasPrefix(word, "\\") || name.GetOriginal() == "" {
 		return name.GetOriginal(), nil
 	}
-	wordNamespace := i.ResolveScopeNamespace(word)
-	nameNamespace := name.GetNamespace()
-	if wordNamespace == nameNamespace || name.GetOriginal() == "" {
+	wordScope := word[:strings.LastIndex(word, "\\")+1]
+	if i.refersTo(symbol, wordScope+name.GetOriginal(), name) {
 		return name.GetOriginal(), nil
 	}
-	nameParts := name.GetParts()
-	firstPart, nameParts := nameParts[0], nameParts[1:]
-	if item, ok := i.classes[firstPart]; ok && strings.Index(word, item.name) == 0 {
-		if len(nameParts) > 0 {
-			return strings.Join(nameParts, "\\"), nil
+	if wordScope != "" {
+		// Importing the first part of the namespace is enough, and this doesn't need
+		// `function` or `const`
+		firstPart := wordScope[:strings.Index(wordScope, "\\")]
+		currentWordScope, _ := GetScopeAndNameFromString(word)
+		if currentWordScope != name.GetNamespace() || i.isNameTaken(document, nil, firstPart) {
+			return "", nil
 		}
-		return firstPart, nil
+		return name.GetOriginal(), i.getInsertUseContext(document).GetUseEdit(NewTypeString("\\"+firstPart), nil, "")
+	}
+	// Aliases
+	for alias, item := range i.tableOf(symbol) {
+		if "\\"+item.name == name.GetFQN() {
+			return alias, nil
+		}
+	}
+	if i.isNameTaken(document, symbol, name.GetOriginal()) {
+		return name.GetFQN(), nil
+	}
+	return name.GetOriginal(), i.getInsertUseContext(document).GetUseEdit(name, symbol, "")
+}
+
+// tableOf returns the imports which the unqualified name of the symbol is looked up in
+func (i ImportTable) tableOf(symbol Symbol) map[string]*importItem {
+	switch symbol.(type) {
+	case *Function:
+		return i.functions
+	case *Const, *Define:
+		return i.constants
+	}
+	return i.classes
+}
+
+// refersTo checks whether the text means name already
+func (i ImportTable) refersTo(symbol Symbol, text string, name TypeString) bool {
+	textName := NewTypeString(text)
+	firstPart, parts := textName.GetFirstAndRestParts()
+	table := i.classes
+	if len(parts) == 0 {
+		table = i.tableOf(symbol)
+	}
+	if item, ok := table[firstPart]; ok {
+		return importedFQN(item, parts) == name.GetFQN()
+	}
+	textName.SetNamespace(i.GetNamespace())
+	if textName.GetFQN() == name.GetFQN() {
+		return true
 	}
 	// TODO: Defines do not have implicit namespace except
 	// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
@@ -197,28 +239,55 @@ func (i ImportTable) ResolveToQualified(document *Document, symbol Symbol, name
 	case *Function, *Const, *Define:
 		// Functions, constants on \ can be used within any namespaces without the need of
 		// use statement
-		if nameNamespace == "\\" {
-			return name.GetOriginal(), nil
+		return len(parts) == 0 && name.GetNamespace() == "\\"
+	}
+	return false
+}
+
+// isNameTaken checks whether the name cannot be imported because it is imported or declared as
+// something else of the same kind
+func (i ImportTable) isNameTaken(document *Document, symbol Symbol, name string) bool {
+	_, isFunction := symbol.(*Function)
+	isConst := false
+	switch symbol.(type) {
+	case *Const, *Define:
+		isConst = true
+	}
+	isSame := func(a, b string) bool {
+		return a == b || !isConst && strings.EqualFold(a, b)
+	}
+	for alias := range i.tableOf(symbol) {
+		if isSame(alias, name) {
+			return true
 		}
 	}
-	// Aliases
-	for alias, item := range i.classes {
-		if "\\"+item.name == name.GetFQN() {
-			return alias, nil
+	declared := NewTypeString(name)
+	declared.SetNamespace(i.GetNamespace())
+	for _, child := range document.Children {
+		switch v := child.(type) {
+		case *Class:
+			if !isFunction && !isConst && isSame(v.Name.GetFQN(), declared.GetFQN()) {
+				return true
+			}
+		case *Interface:
+			if !isFunction && !isConst && isSame(v.Name.GetFQN(), declared.GetFQN()) {
+				return true
+			}
+		case *Trait:
+			if !isFunction && !isConst && isSame(v.Name.GetFQN(), declared.GetFQN()) {
+				return true
+			}
+		case *Function:
+			if isFunction && isSame(v.Name.GetFQN(), declared.GetFQN()) {
+				return true
+			}
+		case *Const:
+			if isConst && v.Name.GetFQN() == declared.GetFQN() {
+				return true
+			}
 		}
 	}
-	// Anything below will require insert use
-	insertUse := i.getInsertUseContext(document)
-	// Calculate what to inlude in insert use, because it is possible
-	// that the current word has a scope, e.g. TestNamespace1\Class.
-	// Therefore, it only needs `use TestNamespace1;`
-	currentWordScope, _ := GetScopeAndNameFromString(word)
-	if currentWordScope != "" && currentWordScope == nameNamespace {
-		// If this goes here we don't need to include `function` or `const` in use
-		// because we only insert the namespace
-		return name.GetOriginal(), insertUse.GetUseEdit(NewTypeString(nameNamespace), nil, "")
-	}
-	return name.GetOriginal(), insertUse.GetUseEdit(name, symbol, "")
+	return false
 }
 
 func (i ImportTable) GetNamespace() string {
@@ -228,12 +297,6 @@ func (i ImportTable) GetNamespace() string {
 	return i.namespace.Name
 }
 
-func (i ImportTable) ResolveScopeNamespace(word string) string {
-	name := NewTypeString(word)
-	name.SetNamespace(i.GetNamespace())
-	return name.GetNamespace()
-}
-
 func (i *ImportTable) useClass(name string) {
 	if item, ok := i.classes[name]; ok {
 		item.isUsed = true
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 66696d3..56d0709 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -214,6 +214,28 @@ func variableCompletion(ctx *completionContext, resolveCtx analysis.ResolveConte
 	return completionList
 }
 
+// qualifiedName returns what has to be written after the namespace in word to refer to the
+// symbol, which is empty if there is no such name, and the use which it requires
+func qualifiedName(ctx *completionContext, symbol analysis.Symbol, name analysis.TypeString, word string) (string, *protocol.TextEdit) {
+	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
+	label, textEdit := importTable.ResolveToQualified(ctx.doc, symbol, name, word)
+	if label == "" || textEdit != nil || strings.Contains(word, "\\") {
+		return label, textEdit
+	}
+	// Names in \ might be hidden by the ones in the current namespace
+	referenceFQN := name.GetFQN()
+	switch symbol.(type) {
+	case *analysis.Function:
+		referenceFQN = importTable.GetFunctionReferenceFQN(ctx.query, analysis.NewTypeString(label))
+	case *analysis.Const, *analysis.Define:
+		referenceFQN = importTable.GetConstReferenceFQN(ctx.query, analysis.NewTypeString(label))
+	}
+	if referenceFQN != name.GetFQN() {
+		return name.GetFQN(), nil
+	}
+	return label, nil
+}
+
 func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
@@ -222,21 +244,29 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 	opts := baseSearchOptions()
 	classes, searchResult := store.SearchClasses(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
+		label, textEdit := qualifiedName(ctx, class, class.Name, word)
+		if label == "" {
+			continue
+		}
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, label, textEdit))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
+		label, textEdit := qualifiedName(ctx, intf, intf.Name, word)
+		if label == "" {
+			continue
+		}
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	consts, searchResult := store.SearchConsts(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, constant := range consts {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, constant, constant.Name, word)
+		label, textEdit := qualifiedName(ctx, constant, constant.Name, word)
+		if label == "" {
+			continue
+		}
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -252,7 +282,10 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 	defines, searchResult := store.SearchDefines(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, define := range defines {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, define, define.Name, word)
+		label, textEdit := qualifiedName(ctx, define, define.Name, word)
+		if label == "" {
+			continue
+		}
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -269,7 +302,10 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 	functions, searchResult := store.SearchFunctions(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, function := range functions {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, function, function.Name, word)
+		label, textEdit := qualifiedName(ctx, function, function.Name, word)
+		if label == "" {
+			continue
+		}
 		insertText, textFormat, command := hasParamsInsertText(function, label)
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
@@ -302,9 +338,11 @@ func classCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 	store := ctx.query.Store()
 	classes, searchResult := store.SearchClasses(word, baseSearchOptions())
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
-		name, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
+		name, textEdit := qualifiedName(ctx, class, class.Name, word)
+		if name == "" {
+			continue
+		}
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -421,9 +459,11 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 	store := ctx.query.Store()
 	classes, searchResult := store.SearchClasses(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, class := range classes {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, class, class.Name, word)
+		label, textEdit := qualifiedName(ctx, class, class.Name, word)
+		if label == "" {
+			continue
+		}
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -439,7 +479,10 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, theInterface := range interfaces {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, theInterface, theInterface.Name, word)
+		label, textEdit := qualifiedName(ctx, theInterface, theInterface.Name, word)
+		if label == "" {
+			continue
+		}
 		textEdits := []protocol.TextEdit{}
 		if textEdit != nil {
 			textEdits = append(textEdits, *textEdit)
@@ -524,9 +567,11 @@ func interfaceCompletion(ctx *completionContext, word string) *protocol.Completi
 	store := ctx.query.Store()
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, intf := range interfaces {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
+		label, textEdit := qualifiedName(ctx, intf, intf.Name, word)
+		if label == "" {
+			continue
+		}
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	return completionList
@@ -540,9 +585,11 @@ func traitCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 	store := ctx.query.Store()
 	traits, searchResult := store.SearchTraits(word, opts)
 	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
-	importTable := ctx.doc.ImportTableAtPos(ctx.pos)
 	for _, trait := range traits {
-		label, textEdit := importTable.ResolveToQualified(ctx.doc, trait, trait.Name, word)
+		label, textEdit := qualifiedName(ctx, trait, trait.Name, word)
+		if label == "" {
+			continue
+		}
 		completionList.Items = append(completionList.Items, traitToCompletionItem(trait, label, textEdit))
 	}
 	return completionList
-- 
2.43.0


From 3e245c1e93e407adf38895d1ee5aac960e505d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 40/99] fix: complete static properties with their dollar sign

Like variables, they replace the word including the sign: the properties
completed after `Class::` and `Class::$` lost it.
---
 internal/lsp/completion.go      | 1 +
 internal/lsp/symbolConverter.go | 6 +-----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 56d0709..adbabf5 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -442,6 +442,7 @@ func memberAccessCompletion(ctx *completionContext, word string, access analysis
 	for _, p := range props {
 		item := propToCompletionItem(p)
 		item.Label = item.Label[1:]
+		item.InsertText = item.InsertText[1:]
 		completionList.Items = append(completionList.Items, item)
 		scores = append(scores, p.Score)
 	}
diff --git a/internal/lsp/symbolConverter.go b/internal/lsp/symbolConverter.go
index e1cc3ea..d313632 100644
--- a/internal/lsp/symbolConverter.go
+++ b/internal/lsp/symbolConverter.go
@@ -517,14 +517,10 @@ func methodToCompletionItem(m analysis.MethodWithScope) protocol.CompletionItem
 
 func propToCompletionItem(p analysis.PropWithScope) protocol.CompletionItem {
 	prop := p.Prop
-	insertText := prop.GetName()
-	if len(prop.GetName()) >= 1 {
-		insertText = insertText[1:]
-	}
 	return protocol.CompletionItem{
 		Kind:          protocol.PropertyCompletion,
 		Label:         prop.GetName(),
-		InsertText:    insertText,
+		InsertText:    prop.GetName(),
 		Documentation: propDocumentation(p),
 		Detail:        p.Prop.Types.ToString(),
 	}
-- 
2.43.0


From a61b36d39f1f4802f81d0c467aed01d1475ef935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 41/99] fix: do not put constants of define() into the
 namespace they are defined in

---
 analysis/define.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analysis/define.go b/analysis/define.go
index 2c27a52..2517538 100644
--- a/analysis/define.go
+++ b/analysis/define.go
@@ -45,7 +45,8 @@ func newDefine(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		}
 		child = traverser.Advance()
 	}
-	define.Name.SetNamespace(document.currImportTable().GetNamespace())
+	// Unlike const, define always takes the full name
+	define.Name.SetNamespace("")
 	document.popBlock()
 	return nil
 }
-- 
2.43.0


From 603c1c71a641298da22b2d204b9b4640a290239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:00 +0000
Subject: [PATCH 42/99] fix: analyse the code inside all kinds of expressions
 and statements

Names and variables inside e.g. print, ??, &, **, <<, exit, finally, yield,
heredocs, list() and static initialisers were not known to any feature.
---
 analysis/symbolBlock.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 74f4d3d..1852a1a 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -75,6 +75,27 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.EncapsulatedVariable,
 	phrase.RequireOnceExpression,
 	phrase.ErrorControlExpression,
+	phrase.BitwiseExpression,
+	phrase.CoalesceExpression,
+	phrase.DeclareStatement,
+	phrase.ExitIntrinsic,
+	phrase.ExponentiationExpression,
+	phrase.FinallyClause,
+	phrase.ForExpressionGroup,
+	phrase.FunctionStaticDeclaration,
+	phrase.FunctionStaticInitialiser,
+	phrase.HeredocStringLiteral,
+	phrase.IncludeOnceExpression,
+	phrase.ListIntrinsic,
+	phrase.PrintIntrinsic,
+	phrase.RequireExpression,
+	phrase.ShellCommandExpression,
+	phrase.ShiftExpression,
+	phrase.StaticVariableDeclaration,
+	phrase.StaticVariableDeclarationList,
+	phrase.VariadicUnpacking,
+	phrase.YieldExpression,
+	phrase.YieldFromExpression,
 })
 
 var /*const */ tokenToSymbolConstructor = map[lexer.TokenType]symbolConstructorForToken{
-- 
2.43.0


From b10c4e2623f187e207697659bb05bbcd22dde161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 43/99] fix: analyse keys, destructured values and bodies
 without braces of foreach

---
 analysis/foreach.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/analysis/foreach.go b/analysis/foreach.go
index 593d554..2c142f6 100644
--- a/analysis/foreach.go
+++ b/analysis/foreach.go
@@ -20,10 +20,12 @@ func analyseForeachStatement(a analyser, document *Document, node *phrase.Phrase
 			switch p.Type {
 			case phrase.ForeachCollection:
 				f = newForeachCollection(a, document, p)
+			case phrase.ForeachKey:
+				analyseForeachKey(a, document, p)
 			case phrase.ForeachValue:
 				analyseForeachValue(a, document, f, p)
-			case phrase.CompoundStatement, phrase.StatementList:
-				scanForChildren(a, document, p)
+			default:
+				scanNode(a, document, p)
 			}
 		}
 		child = traverser.Advance()
@@ -39,8 +41,9 @@ func newForeachCollection(a analyser, document *Document, node *phrase.Phrase) *
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
-			expr := scanForExpression(a, document, p)
-			if expr != nil {
+			if _, ok := nodeTypeToExprConstructor[p.Type]; !ok {
+				scanNode(a, document, p)
+			} else if expr := scanForExpression(a, document, p); expr != nil {
 				f.setExpression(expr)
 			}
 		}
@@ -49,6 +52,12 @@ func newForeachCollection(a analyser, document *Document, node *phrase.Phrase) *
 	return f
 }
 
+func analyseForeachKey(a analyser, document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		scanNode(a, document, child)
+	}
+}
+
 func analyseForeachValue(a analyser, document *Document, f *ForeachCollection, node *phrase.Phrase) {
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
@@ -60,6 +69,8 @@ func analyseForeachValue(a analyser, document *Document, f *ForeachCollection, n
 					v.setExpression(f)
 					document.addSymbol(v)
 				}
+			default:
+				scanNode(a, document, p)
 			}
 		}
 		child = traverser.Advance()
-- 
2.43.0


From 0456eed3f934bf5640037c08189ee34d86e4422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 44/99] fix: analyse the values of compound assignments

Only the values of .= were, and a value which is an assignment to a property in a constructor was analysed twice.
---
 analysis/assignment.go | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/analysis/assignment.go b/analysis/assignment.go
index 24f8779..2b42c6d 100644
--- a/analysis/assignment.go
+++ b/analysis/assignment.go
@@ -3,7 +3,6 @@ package analysis
 import (
 	"strings"
 
-	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/util"
 )
@@ -14,7 +13,7 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 	haveProcessed := false
 	if p, ok := firstChild.(*phrase.Phrase); ok {
 		if p.Type == phrase.SimpleVariable {
-			analyseVariableAssignment(a, document, p, traverser.Clone(), node)
+			analyseVariableAssignment(a, document, p, node)
 			haveProcessed = true
 		}
 		if p.Type == phrase.PropertyAccessExpression {
@@ -36,20 +35,16 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 	return nil, false
 }
 
-func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phrase, traverser *util.Traverser, parent *phrase.Phrase) {
-	traverser.Advance()
-	traverser.SkipToken(lexer.Whitespace)
-	if parent.Type == phrase.CompoundAssignmentExpression {
-		traverser.SkipToken(lexer.DotEquals)
-	} else {
-		traverser.SkipToken(lexer.Equals)
+// assignedNode returns the right hand side of the assignment
+func assignedNode(node *phrase.Phrase) phrase.AstNode {
+	if len(node.Children) < 2 {
+		return nil
 	}
-	traverser.SkipToken(lexer.Whitespace)
-	if parent.Type == phrase.ByRefAssignmentExpression {
-		traverser.SkipToken(lexer.Ampersand)
-		traverser.SkipToken(lexer.Whitespace)
-	}
-	rhs := traverser.Advance()
+	return node.Children[len(node.Children)-1]
+}
+
+func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phrase, parent *phrase.Phrase) {
+	rhs := assignedNode(parent)
 	phpDoc := document.getValidPhpDoc(document.GetNodeLocation(lhs))
 	variable := newVariableWithoutPushing(document, lhs)
 	if phpDoc != nil {
@@ -66,7 +61,7 @@ func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phras
 	}
 	// But the variable should be pushed after any rhs's variables
 	document.pushVariable(a, variable, document.NodeRange(parent).End, true)
-	if expression != nil {
+	if expression != nil && parent.Type != phrase.CompoundAssignmentExpression {
 		variable.setExpression(expression)
 	} else if !isExprType {
 		scanNode(a, document, rhs)
@@ -93,15 +88,16 @@ func processPropertyAccessAssignment(a analyser, document *Document, node *phras
 	if p, ok := lhs.(*phrase.Phrase); ok {
 		lhsExpr = scanForExpression(a, document, p)
 	}
-	parentTraverser.SkipToken(lexer.Whitespace)
-	parentTraverser.SkipToken(lexer.Equals)
-	parentTraverser.SkipToken(lexer.Whitespace)
-	rhs := parentTraverser.Advance()
+	rhs := assignedNode(parent)
+	isExprType := false
 	if rhsP, ok := rhs.(*phrase.Phrase); ok {
 		rhsExpr = scanForExpression(a, document, rhsP)
+		_, isExprType = nodeTypeToExprConstructor[rhsP.Type]
 	}
-	if rhsExpr == nil {
-		scanNode(a, document, rhs)
+	if rhsExpr == nil || parent.Type == phrase.CompoundAssignmentExpression {
+		if !isExprType {
+			scanNode(a, document, rhs)
+		}
 		return
 	}
 	if p, ok1 := firstChild.(*phrase.Phrase); ok1 && p.Type == phrase.SimpleVariable &&
-- 
2.43.0


From acc12067a9aa0910b7c37cb29b15901ea5abea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:35 +0000
Subject: [PATCH 45/99] fix: analyse the variables of catch clauses

They had no types and were missed by renaming.
---
 analysis/symbolBlock.go |  3 +--
 analysis/try.go         | 29 +++++++++++++++++++++++++++--
 analysis/variable.go    |  4 ++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 1852a1a..5118ec8 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -34,7 +34,6 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.ExpressionList,
 	phrase.TryStatement,
 	phrase.CatchClauseList,
-	phrase.CatchClause,
 	phrase.ReturnStatement,
 	phrase.ArrayCreationExpression,
 	phrase.ArrayInitialiserList,
@@ -122,7 +121,7 @@ func init() {
 		phrase.AnonymousFunctionCreationExpression: newAnonymousFunction,
 		phrase.AnonymousClassDeclaration:           newAnonymousClass,
 		phrase.DocumentComment:                     newPhpDocFromNode,
-		phrase.CatchNameList:                       processCatchNameList,
+		phrase.CatchClause:                         processCatchClause,
 	}
 }
 
diff --git a/analysis/try.go b/analysis/try.go
index b75290a..f476c27 100644
--- a/analysis/try.go
+++ b/analysis/try.go
@@ -1,11 +1,35 @@
 package analysis
 
 import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
-func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) Symbol {
+func processCatchClause(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	types := newTypeComposite()
+	for _, child := range node.Children {
+		switch n := child.(type) {
+		case *phrase.Phrase:
+			if n.Type == phrase.CatchNameList {
+				types.merge(processCatchNameList(a, document, n))
+			} else {
+				scanNode(a, document, n)
+			}
+		case *lexer.Token:
+			if n.Type == lexer.VariableName {
+				variable := newVariableWithoutPushing(document, n)
+				variable.Type.merge(types)
+				document.getCurrentVariableTable().add(a, variable, variable.GetLocation().Range.End, false)
+				document.addSymbol(variable)
+			}
+		}
+	}
+	return nil
+}
+
+func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) TypeComposite {
+	types := newTypeComposite()
 	traverser := util.NewTraverser(node)
 	for child := traverser.Advance(); child != nil; child = traverser.Advance() {
 		if p, ok := child.(*phrase.Phrase); ok {
@@ -13,8 +37,9 @@ func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) S
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
 				classAccess := newClassAccess(a, document, p)
 				document.addSymbol(classAccess)
+				types.merge(classAccess.GetTypes())
 			}
 		}
 	}
-	return nil
+	return types
 }
diff --git a/analysis/variable.go b/analysis/variable.go
index 2dbac7b..f7e0d79 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -19,13 +19,13 @@ func newVariableExpression(a analyser, document *Document, node *phrase.Phrase)
 	return newVariable(a, document, node, false)
 }
 
-func newVariable(a analyser, document *Document, node *phrase.Phrase, isDeclaration bool) (*Variable, bool) {
+func newVariable(a analyser, document *Document, node phrase.AstNode, isDeclaration bool) (*Variable, bool) {
 	variable := newVariableWithoutPushing(document, node)
 	document.pushVariable(a, variable, variable.GetLocation().Range.End, isDeclaration)
 	return variable, true
 }
 
-func newVariableWithoutPushing(document *Document, node *phrase.Phrase) *Variable {
+func newVariableWithoutPushing(document *Document, node phrase.AstNode) *Variable {
 	variable := &Variable{
 		Expression: Expression{
 			Name:     document.GetNodeText(node),
-- 
2.43.0


From d1435b9817daa983a3a3798c4bdb27519cfab42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 46/99] fix: analyse static variables

Their declarations were missed by completion and renaming.
---
 analysis/symbolBlock.go |  2 +-
 analysis/variable.go    | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 5118ec8..59c135e 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -90,7 +90,6 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.RequireExpression,
 	phrase.ShellCommandExpression,
 	phrase.ShiftExpression,
-	phrase.StaticVariableDeclaration,
 	phrase.StaticVariableDeclarationList,
 	phrase.VariadicUnpacking,
 	phrase.YieldExpression,
@@ -122,6 +121,7 @@ func init() {
 		phrase.AnonymousClassDeclaration:           newAnonymousClass,
 		phrase.DocumentComment:                     newPhpDocFromNode,
 		phrase.CatchClause:                         processCatchClause,
+		phrase.StaticVariableDeclaration:           newStaticVariable,
 	}
 }
 
diff --git a/analysis/variable.go b/analysis/variable.go
index f7e0d79..849c5a4 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -3,6 +3,7 @@ package analysis
 import (
 	"sort"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 )
@@ -25,6 +26,19 @@ func newVariable(a analyser, document *Document, node phrase.AstNode, isDeclarat
 	return variable, true
 }
 
+// newStaticVariable processes a variable of a static declaration
+func newStaticVariable(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	for _, child := range node.Children {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
+			variable, _ := newVariable(a, document, t, false)
+			document.addSymbol(variable)
+			continue
+		}
+		scanNode(a, document, child)
+	}
+	return nil
+}
+
 func newVariableWithoutPushing(document *Document, node phrase.AstNode) *Variable {
 	variable := &Variable{
 		Expression: Expression{
-- 
2.43.0


From a72af5dc2d97acb05783ee45cfbbd3bcf7914003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:09 +0000
Subject: [PATCH 47/99] fix: analyse the default values of parameters and the
 values of constants

---
 analysis/const.go     | 8 +++++++-
 analysis/parameter.go | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/analysis/const.go b/analysis/const.go
index 9f27d24..01868a7 100644
--- a/analysis/const.go
+++ b/analysis/const.go
@@ -37,6 +37,7 @@ func newConst(a analyser, document *Document, node *phrase.Phrase) Symbol {
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	hasEquals := false
+	values := []*phrase.Phrase{}
 	for child != nil {
 		if token, ok := child.(*lexer.Token); ok {
 			switch token.Type {
@@ -58,12 +59,17 @@ func newConst(a analyser, document *Document, node *phrase.Phrase) Symbol {
 			if hasEquals {
 				constant.Value += document.getPhraseText(p)
 			}
+			values = append(values, p)
 		}
 
 		child = traverser.Advance()
 	}
 	constant.Name.SetNamespace(document.currImportTable().GetNamespace())
-	return constant
+	document.addSymbol(constant)
+	for _, value := range values {
+		scanNode(a, document, value)
+	}
+	return nil
 }
 
 func (s *Const) GetLocation() protocol.Location {
diff --git a/analysis/parameter.go b/analysis/parameter.go
index 3619e35..453041e 100644
--- a/analysis/parameter.go
+++ b/analysis/parameter.go
@@ -54,6 +54,7 @@ func newParameter(a analyser, document *Document, node *phrase.Phrase) *Paramete
 					param.hasValue = true
 					param.Value += document.getPhraseText(p)
 				}
+				scanNode(a, document, p)
 			}
 		} else if token, ok := child.(*lexer.Token); ok {
 			switch token.Type {
-- 
2.43.0


From 6912e9c5ab1425b06d7e6057be7d1aa4c77cb105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:44 +0000
Subject: [PATCH 48/99] fix: analyse expressions which are used as names of
 members

---
 analysis/memberAccess.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index 935f5a4..66c2995 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -35,6 +35,7 @@ func readMemberName(a analyser, document *Document, traverser *util.Traverser) (
 				}
 				return name, location
 			}
+			scanNode(a, document, child)
 		}
 	} else if t, ok := memberName.(*lexer.Token); ok && t.Type == lexer.Name {
 		location = document.GetNodeLocation(t)
-- 
2.43.0


From dfb82dcd0fe6f93844d233c3aaf17fb8d4893297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 49/99] fix: analyse all operands of accesses, calls and
 instanceof

Operands like $a[0] in $a[0]->b() were not known to any feature.
---
 analysis/assignment.go          |  1 +
 analysis/binaryExpression.go    | 14 ++++++--------
 analysis/classAccess.go         |  4 ++--
 analysis/classTypeDesignator.go |  2 ++
 analysis/document.go            | 13 ++++++++++++-
 analysis/expression.go          | 12 ++++++++++++
 analysis/functionCall.go        |  4 +---
 analysis/methodAccess.go        |  2 +-
 analysis/propertyAccess.go      |  2 +-
 analysis/scopedMethodAccess.go  |  3 +++
 analysis/variable.go            | 14 +++++++++++++-
 11 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/analysis/assignment.go b/analysis/assignment.go
index 2b42c6d..d76df22 100644
--- a/analysis/assignment.go
+++ b/analysis/assignment.go
@@ -52,6 +52,7 @@ func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phras
 	}
 	// The variable appears before rhs therefore being added before rhs
 	document.addSymbol(variable)
+	scanVariableName(a, document, lhs)
 
 	var expression HasTypes = nil
 	isExprType := false
diff --git a/analysis/binaryExpression.go b/analysis/binaryExpression.go
index 4c56cf5..f752e8a 100644
--- a/analysis/binaryExpression.go
+++ b/analysis/binaryExpression.go
@@ -14,6 +14,8 @@ func newInstanceOfTypeDesignator(a analyser, document *Document, node *phrase.Ph
 			switch p.Type {
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
 				return newClassAccess(a, document, p), true
+			default:
+				scanOperand(a, document, p)
 			}
 		}
 		child = traverser.Advance()
@@ -28,14 +30,10 @@ func processInstanceOfExpression(a analyser, document *Document, node *phrase.Ph
 	traverser.SkipToken(lexer.InstanceOf)
 	traverser.SkipToken(lexer.Whitespace)
 	rhs := traverser.Advance()
-	if lhs, ok1 := lhs.(*phrase.Phrase); ok1 {
-		if rhs, ok2 := rhs.(*phrase.Phrase); ok2 {
-			lhsExpr := scanForExpression(a, document, lhs)
-			rhsExpr := scanForExpression(a, document, rhs)
-			if v, ok := lhsExpr.(*Variable); ok && rhsExpr != nil {
-				v.Type.merge(rhsExpr.GetTypes())
-			}
-		}
+	lhsExpr := scanOperand(a, document, lhs)
+	rhsExpr := scanOperand(a, document, rhs)
+	if v, ok := lhsExpr.(*Variable); ok && rhsExpr != nil {
+		v.Type.merge(rhsExpr.GetTypes())
 	}
 	return nil, false
 }
diff --git a/analysis/classAccess.go b/analysis/classAccess.go
index cfb2753..e2dcd6a 100644
--- a/analysis/classAccess.go
+++ b/analysis/classAccess.go
@@ -34,8 +34,8 @@ func newClassAccess(a analyser, document *Document, node *phrase.Phrase) *ClassA
 			typeString := transformQualifiedName(node, document)
 			typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 			types.add(typeString)
-		case phrase.SimpleVariable:
-			expr := scanForExpression(a, document, node)
+		default:
+			expr := scanOperand(a, document, node)
 			if expr != nil {
 				classAccess.Scope = expr
 			}
diff --git a/analysis/classTypeDesignator.go b/analysis/classTypeDesignator.go
index fc1e6ba..3058fea 100644
--- a/analysis/classTypeDesignator.go
+++ b/analysis/classTypeDesignator.go
@@ -59,6 +59,8 @@ func (s *ClassTypeDesignator) analyseNode(a analyser, document *Document, node *
 				if variable, ok := newVariable(a, document, p, false); ok {
 					document.addSymbol(variable)
 				}
+			default:
+				scanOperand(a, document, p)
 			}
 		}
 		child = traverser.Advance()
diff --git a/analysis/document.go b/analysis/document.go
index 2b8b38a..34d6d7b 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"regexp"
 	"sort"
+	"strings"
 	"sync"
 	"time"
 	"unicode/utf8"
@@ -648,13 +649,23 @@ func (s *Document) ArgumentListAndFunctionCallAt(pos protocol.Position) (*Argume
 	})
 	if argumentList != nil && hasParamsResolvable == nil {
 		hasTypes := s.hasTypesBeforePos(argumentList.GetLocation().Range.Start)
-		if resolvable, ok := hasTypes.(HasParamsResolvable); ok {
+		if resolvable, ok := hasTypes.(HasParamsResolvable); ok && s.isCallee(hasTypes, argumentList) {
 			hasParamsResolvable = resolvable
 		}
 	}
 	return argumentList, hasParamsResolvable
 }
 
+// isCallee returns whether the argument list belongs to the symbol, i.e. there
+// are only spaces and comments in between
+func (s *Document) isCallee(symbol Symbol, argumentList *ArgumentList) bool {
+	start := s.OffsetAtPosition(symbol.GetLocation().Range.End)
+	end := s.OffsetAtPosition(argumentList.GetLocation().Range.Start)
+	between := strings.TrimSpace(s.textBetween(start, end))
+	return between == "" || strings.HasPrefix(between, "/*") || strings.HasPrefix(between, "//") ||
+		strings.HasPrefix(between, "#")
+}
+
 // CloneForMutate returns a new document with resetted state
 func (s *Document) CloneForMutate() *Document {
 	return &Document{
diff --git a/analysis/expression.go b/analysis/expression.go
index d1855f5..503262f 100644
--- a/analysis/expression.go
+++ b/analysis/expression.go
@@ -104,6 +104,18 @@ func scanForExpression(a analyser, document *Document, node *phrase.Phrase) HasT
 	return expression
 }
 
+// scanOperand processes the node which is a part of another expression and
+// returns the expression if its types are known
+func scanOperand(a analyser, document *Document, node phrase.AstNode) HasTypes {
+	if p, ok := node.(*phrase.Phrase); ok {
+		if _, ok := nodeTypeToExprConstructor[p.Type]; ok {
+			return scanForExpression(a, document, p)
+		}
+	}
+	scanNode(a, document, node)
+	return nil
+}
+
 type derivedExpression struct {
 	Expression
 	children    []Symbol
diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index c7797a5..8cccc59 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -48,9 +48,7 @@ func newFunctionCall(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	child := traverser.Advance()
 	firstChild := child
 	if firstChild != nil {
-		if p, ok := firstChild.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable {
-			scanForExpression(a, document, p)
-		}
+		scanOperand(a, document, firstChild)
 		functionCall.Location = document.GetNodeLocation(firstChild)
 		functionCall.Name = document.GetNodeText(firstChild)
 		document.currImportTable().useFunctionOrClass(NewTypeString(functionCall.Name))
diff --git a/analysis/methodAccess.go b/analysis/methodAccess.go
index f093da5..d432e7f 100644
--- a/analysis/methodAccess.go
+++ b/analysis/methodAccess.go
@@ -23,7 +23,7 @@ func newMethodAccess(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		expression := scanForExpression(a, document, p)
+		expression := scanOperand(a, document, p)
 		if expression != nil {
 			methodAccess.Scope = expression
 		}
diff --git a/analysis/propertyAccess.go b/analysis/propertyAccess.go
index 05fc09b..9979663 100644
--- a/analysis/propertyAccess.go
+++ b/analysis/propertyAccess.go
@@ -24,7 +24,7 @@ func newPropertyAccess(a analyser, document *Document, node *phrase.Phrase) (Has
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		expression := scanForExpression(a, document, p)
+		expression := scanOperand(a, document, p)
 		if expression != nil {
 			propertyAccess.Scope = expression
 		}
diff --git a/analysis/scopedMethodAccess.go b/analysis/scopedMethodAccess.go
index f2c77c9..04a07fb 100644
--- a/analysis/scopedMethodAccess.go
+++ b/analysis/scopedMethodAccess.go
@@ -36,6 +36,9 @@ func newScopedMethodAccess(a analyser, document *Document, node *phrase.Phrase)
 		methodAccess.Name = analyseMemberName(document, p)
 	}
 	document.addSymbol(methodAccess)
+	if p, ok := thirdChild.(*phrase.Phrase); ok {
+		scanForChildren(a, document, p)
+	}
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.ArgumentExpressionList {
diff --git a/analysis/variable.go b/analysis/variable.go
index 849c5a4..24f705f 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -17,7 +17,19 @@ type Variable struct {
 }
 
 func newVariableExpression(a analyser, document *Document, node *phrase.Phrase) (HasTypes, bool) {
-	return newVariable(a, document, node, false)
+	variable, _ := newVariable(a, document, node, false)
+	document.addSymbol(variable)
+	scanVariableName(a, document, node)
+	return variable, false
+}
+
+// scanVariableName processes the expression which is the name of a variable
+func scanVariableName(a analyser, document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok {
+			scanNode(a, document, p)
+		}
+	}
 }
 
 func newVariable(a analyser, document *Document, node phrase.AstNode, isDeclaration bool) (*Variable, bool) {
-- 
2.43.0


From a0968cbf031dbcf41e2d7590ca6d395c7a306469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 50/99] fix: do not hide expressions in front of :: behind the
 access

---
 analysis/classAccess.go          | 15 +++++++++++++--
 analysis/scopedConstantAccess.go |  6 +++---
 analysis/scopedMethodAccess.go   |  6 +++---
 analysis/scopedPropertyAccess.go |  6 +++---
 4 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/analysis/classAccess.go b/analysis/classAccess.go
index e2dcd6a..d252253 100644
--- a/analysis/classAccess.go
+++ b/analysis/classAccess.go
@@ -14,6 +14,17 @@ type ClassAccess struct {
 
 var _ (HasTypes) = (*ClassAccess)(nil)
 
+// scanClassAccess processes the node before :: and returns its expression
+func scanClassAccess(a analyser, document *Document, node *phrase.Phrase) HasTypes {
+	switch node.Type {
+	case phrase.QualifiedName, phrase.FullyQualifiedName, phrase.RelativeScope, phrase.SimpleVariable:
+		classAccess := newClassAccess(a, document, node)
+		document.addSymbol(classAccess)
+		return classAccess
+	}
+	return scanOperand(a, document, node)
+}
+
 func newClassAccess(a analyser, document *Document, node *phrase.Phrase) *ClassAccess {
 	classAccess := &ClassAccess{
 		Expression: Expression{
@@ -34,8 +45,8 @@ func newClassAccess(a analyser, document *Document, node *phrase.Phrase) *ClassA
 			typeString := transformQualifiedName(node, document)
 			typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 			types.add(typeString)
-		default:
-			expr := scanOperand(a, document, node)
+		case phrase.SimpleVariable:
+			expr := scanForExpression(a, document, node)
 			if expr != nil {
 				classAccess.Scope = expr
 			}
diff --git a/analysis/scopedConstantAccess.go b/analysis/scopedConstantAccess.go
index 84df739..27fba9d 100644
--- a/analysis/scopedConstantAccess.go
+++ b/analysis/scopedConstantAccess.go
@@ -23,9 +23,9 @@ func newScopedConstantAccess(a analyser, document *Document, node *phrase.Phrase
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		classAccess := newClassAccess(a, document, p)
-		document.addSymbol(classAccess)
-		constantAccess.Scope = classAccess
+		if scope := scanClassAccess(a, document, p); scope != nil {
+			constantAccess.Scope = scope
+		}
 	}
 	traverser.Advance()
 	thirdChild := traverser.Advance()
diff --git a/analysis/scopedMethodAccess.go b/analysis/scopedMethodAccess.go
index 04a07fb..320b192 100644
--- a/analysis/scopedMethodAccess.go
+++ b/analysis/scopedMethodAccess.go
@@ -25,9 +25,9 @@ func newScopedMethodAccess(a analyser, document *Document, node *phrase.Phrase)
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		classAccess := newClassAccess(a, document, p)
-		document.addSymbol(classAccess)
-		methodAccess.Scope = classAccess
+		if scope := scanClassAccess(a, document, p); scope != nil {
+			methodAccess.Scope = scope
+		}
 	}
 	traverser.Advance()
 	thirdChild := traverser.Advance()
diff --git a/analysis/scopedPropertyAccess.go b/analysis/scopedPropertyAccess.go
index fa4ac7e..4ccc6aa 100644
--- a/analysis/scopedPropertyAccess.go
+++ b/analysis/scopedPropertyAccess.go
@@ -26,9 +26,9 @@ func newScopedPropertyAccess(a analyser, document *Document, node *phrase.Phrase
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		classAccess := newClassAccess(a, document, p)
-		document.addSymbol(classAccess)
-		propertyAccess.Scope = classAccess
+		if scope := scanClassAccess(a, document, p); scope != nil {
+			propertyAccess.Scope = scope
+		}
 	}
 	traverser.Advance()
 	thirdChild := traverser.Advance()
-- 
2.43.0


From 375dd43a233e6241b9135233c8be26d7ee9910af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 51/99] fix: use the class which contains the code as its scope

The class which started last was used, so code after an anonymous class was
treated as if it was inside of the anonymous class.
---
 analysis/document.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 34d6d7b..68f9654 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -467,13 +467,16 @@ func (s *Document) pushVariable(a analyser, variable *Variable, pos protocol.Pos
 	variableTable.add(a, variable, pos, isDeclaration)
 }
 
-// Even though the name indicates class but actually this will also
-// return interface and trait
+// getLastClass returns the innermost class which is being analysed. Even though
+// the name indicates class but actually this will also return interface and trait
 func (s *Document) getLastClass() Symbol {
-	if len(s.classStack) == 0 {
-		return nil
+	for i := len(s.blockStack) - 1; i >= 0; i-- {
+		switch class := s.blockStack[i].(type) {
+		case *Class, *Interface, *Trait:
+			return class
+		}
 	}
-	return s.classStack[len(s.classStack)-1]
+	return nil
 }
 
 // ClassAt returns a class, interface or trait at the position
@@ -523,18 +526,20 @@ func (s *Document) GetClassScopeAtSymbol(symbol Symbol) string {
 		return v.Name.GetFQN()
 	case *Interface:
 		return v.Name.GetFQN()
+	case *Trait:
+		return v.Name.GetFQN()
 	}
 	return ""
 }
 
 func (s *Document) getClassAtPos(pos protocol.Position) Symbol {
-	index := sort.Search(len(s.classStack), func(i int) bool {
-		return protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) <= 0
-	})
-	if index >= len(s.classStack) || protocol.IsInRange(pos, s.classStack[index].GetLocation().Range) != 0 {
-		return nil
+	// Nested classes start after the classes which contain them
+	for i := len(s.classStack) - 1; i >= 0; i-- {
+		if protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) == 0 {
+			return s.classStack[i]
+		}
 	}
-	return s.classStack[index]
+	return nil
 }
 
 func (s *Document) NodeSpineAt(offset int) util.NodeStack {
-- 
2.43.0


From 8534def0e7a9ff091305375972e500b82ad7a040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:46 +0000
Subject: [PATCH 52/99] fix: analyse variables which closures use by reference
 as the variables they are

---
 analysis/anonymousFunction.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 2189a13..2934165 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -3,6 +3,7 @@ package analysis
 import (
 	"log"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -91,7 +92,7 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 					for child != nil {
 						if p, ok := child.(*phrase.Phrase); ok {
 							if p.Type == phrase.AnonymousFunctionUseVariable {
-								variable, shouldAdd := newVariable(a, document, p, true)
+								variable, shouldAdd := newVariable(a, document, useVariableName(p), true)
 								prevVariableTable.add(a, variable, variable.GetLocation().Range.End, false)
 								if shouldAdd {
 									document.addSymbol(variable)
@@ -116,6 +117,16 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 	}
 }
 
+// useVariableName returns the name of the variable without the ampersand
+func useVariableName(node *phrase.Phrase) phrase.AstNode {
+	for _, child := range node.Children {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
+			return t
+		}
+	}
+	return node
+}
+
 func (s *AnonymousFunction) GetLocation() protocol.Location {
 	return s.location
 }
-- 
2.43.0


From cf887a48aebb0afa72ee89269d1223e5b7e4b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:54 +0000
Subject: [PATCH 53/99] fix: analyse the code inside arrow functions

---
 analysis/arrowFunction.go | 73 +++++++++++++++++++++++++++++++++++++++
 analysis/document.go      | 12 ++++++-
 analysis/symbolBlock.go   |  1 +
 analysis/variable.go      | 32 ++++++++++++++++-
 4 files changed, 116 insertions(+), 2 deletions(-)
 create mode 100644 analysis/arrowFunction.go

diff --git a/analysis/arrowFunction.go b/analysis/arrowFunction.go
new file mode 100644
index 0000000..3c28706
--- /dev/null
+++ b/analysis/arrowFunction.go
@@ -0,0 +1,73 @@
+package analysis
+
+import (
+	"github.com/john-nguyen09/go-phpparser/phrase"
+	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+)
+
+// ArrowFunction is a function which shares the variables of the code around it,
+// except for its parameters
+type ArrowFunction struct {
+	location protocol.Location
+	children []Symbol
+
+	Params []*Parameter
+}
+
+var _ BlockSymbol = (*ArrowFunction)(nil)
+
+func newArrowFunction(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	arrowFunc := &ArrowFunction{
+		location: document.GetNodeLocation(node),
+	}
+	document.addSymbol(arrowFunc)
+	variableTable := document.pushArrowVariableTable(node)
+	document.pushBlock(arrowFunc)
+	for _, child := range node.Children {
+		p, ok := child.(*phrase.Phrase)
+		if !ok || p.Type != phrase.ArrowFunctionHeader {
+			scanNode(a, document, child)
+			continue
+		}
+		arrowFunc.analyseHeader(a, document, p)
+		for _, param := range arrowFunc.Params {
+			variableTable.addParam(a, param.ToVariable())
+		}
+	}
+	document.popBlock()
+	document.popVariableTable()
+	return nil
+}
+
+func (s *ArrowFunction) analyseHeader(a analyser, document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		p, ok := child.(*phrase.Phrase)
+		if !ok {
+			continue
+		}
+		switch p.Type {
+		case phrase.ParameterDeclarationList:
+			for _, param := range p.Children {
+				if p, ok := param.(*phrase.Phrase); ok && p.Type == phrase.ParameterDeclaration {
+					s.Params = append(s.Params, newParameter(a, document, p))
+				}
+			}
+		default:
+			scanNode(a, document, p)
+		}
+	}
+}
+
+// GetLocation returns the location of the arrow function
+func (s *ArrowFunction) GetLocation() protocol.Location {
+	return s.location
+}
+
+func (s *ArrowFunction) addChild(child Symbol) {
+	s.children = append(s.children, child)
+}
+
+// GetChildren returns the symbols inside of the arrow function
+func (s *ArrowFunction) GetChildren() []Symbol {
+	return s.children
+}
diff --git a/analysis/document.go b/analysis/document.go
index 68f9654..554c1ec 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -423,6 +423,16 @@ func (s *Document) pushVariableTable(node *phrase.Phrase) {
 	s.variableTableLevel++
 }
 
+// pushArrowVariableTable pushes a table which shares the current one
+func (s *Document) pushArrowVariableTable(node *phrase.Phrase) *VariableTable {
+	outer := s.getCurrentVariableTable()
+	s.pushVariableTable(node)
+	variableTable := s.getCurrentVariableTable()
+	variableTable.outer = outer
+	variableTable.params = map[string]bool{}
+	return variableTable
+}
+
 func (s *Document) popVariableTable() *VariableTable {
 	length := len(s.variableTables)
 	last, poppedVariableTables := s.variableTables[length-1], s.variableTables[:length-1]
@@ -461,7 +471,7 @@ func (s *Document) pushVariable(a analyser, variable *Variable, pos protocol.Pos
 	if currentVariable != nil {
 		variable.mergeTypesWithVariable(currentVariable)
 	}
-	if variableTable.level == 0 || variableTable.canReferenceGlobal(variable.Name) {
+	if variableTable.owner(variable.Name).level == 0 || variableTable.canReferenceGlobal(variable.Name) {
 		variable.canReferenceGlobal = true
 	}
 	variableTable.add(a, variable, pos, isDeclaration)
diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 59c135e..13abbbb 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -118,6 +118,7 @@ func init() {
 		phrase.GlobalDeclaration:                   newGlobalDeclaration,
 		phrase.NamespaceUseDeclaration:             processNamespaceUseDeclaration,
 		phrase.AnonymousFunctionCreationExpression: newAnonymousFunction,
+		phrase.ArrowFunctionCreationExpression:     newArrowFunction,
 		phrase.AnonymousClassDeclaration:           newAnonymousClass,
 		phrase.DocumentComment:                     newPhpDocFromNode,
 		phrase.CatchClause:                         processCatchClause,
diff --git a/analysis/variable.go b/analysis/variable.go
index 24f705f..e5d5087 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -160,6 +160,11 @@ type VariableTable struct {
 	globalDeclares map[string]bool
 	level          int
 	children       []*VariableTable
+
+	// outer is the table which is shared by an arrow function, except for the
+	// names of its params
+	outer  *VariableTable
+	params map[string]bool
 }
 
 func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
@@ -171,7 +176,22 @@ func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
 	}
 }
 
+// addParam adds a parameter of an arrow function
+func (vt *VariableTable) addParam(a analyser, param *Variable) {
+	vt.params[param.Name] = true
+	vt.add(a, param, param.GetLocation().Range.End, false)
+}
+
+// owner returns the table which the variables with the name belong to
+func (vt *VariableTable) owner(name string) *VariableTable {
+	for vt.outer != nil && !vt.params[name] {
+		vt = vt.outer
+	}
+	return vt
+}
+
 func (vt *VariableTable) add(a analyser, variable *Variable, start protocol.Position, isDeclaration bool) {
+	vt = vt.owner(variable.Name)
 	currentVars := []contextualVariable{}
 	newCtxVar := newContextualVariable(variable, start, isDeclaration)
 	if !isDeclaration {
@@ -202,6 +222,7 @@ func (vt *VariableTable) add(a analyser, variable *Variable, start protocol.Posi
 }
 
 func (vt *VariableTable) get(name string, pos protocol.Position) *Variable {
+	vt = vt.owner(name)
 	if vars, ok := vt.variables[name]; ok {
 		index := sort.Search(len(vars), func(i int) bool {
 			return protocol.ComparePos(pos, vars[i].start) < 0
@@ -215,6 +236,7 @@ func (vt *VariableTable) get(name string, pos protocol.Position) *Variable {
 }
 
 func (vt *VariableTable) canReferenceGlobal(name string) bool {
+	vt = vt.owner(name)
 	if _, ok := vt.globalDeclares[name]; ok {
 		return true
 	}
@@ -222,12 +244,19 @@ func (vt *VariableTable) canReferenceGlobal(name string) bool {
 }
 
 func (vt *VariableTable) setReferenceGlobal(name string) {
-	vt.globalDeclares[name] = true
+	vt.owner(name).globalDeclares[name] = true
 }
 
 // GetVariables returns all the variables in the table
 func (vt *VariableTable) GetVariables(pos protocol.Position) []*Variable {
 	results := []*Variable{}
+	if vt.outer != nil {
+		for _, v := range vt.outer.GetVariables(pos) {
+			if !vt.params[v.Name] {
+				results = append(results, v)
+			}
+		}
+	}
 	for _, vars := range vt.variables {
 		if len(vars) == 0 {
 			continue
@@ -261,6 +290,7 @@ func (vt *VariableTable) unusedVariables() []*Variable {
 
 // GetContextualVariables returns the variable instances with the given name
 func (vt *VariableTable) GetContextualVariables(name string) []contextualVariable {
+	vt = vt.owner(name)
 	if ctxVars, ok := vt.variables[name]; ok {
 		return ctxVars
 	}
-- 
2.43.0


From 33d6b3302d2e9c185ae6b1279e2f2e3c26c5aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:48 +0000
Subject: [PATCH 54/99] fix: do not hide expressions which are used as names of
 members behind the access

---
 analysis/memberAccess.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index 66c2995..24e5f37 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -35,7 +35,11 @@ func readMemberName(a analyser, document *Document, traverser *util.Traverser) (
 				}
 				return name, location
 			}
-			scanNode(a, document, child)
+			if p, ok := child.(*phrase.Phrase); ok {
+				// The access must not hide the expression
+				location.Range.End = location.Range.Start
+				scanNode(a, document, p)
+			}
 		}
 	} else if t, ok := memberName.(*lexer.Token); ok && t.Type == lexer.Name {
 		location = document.GetNodeLocation(t)
-- 
2.43.0


From 0d03baa0bda5cc6dfb0432aa307df1f459f2eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:48 +0000
Subject: [PATCH 55/99] fix: analyse the native types of returned values and
 properties, and nullable types

The names in them were not known to any feature.
---
 analysis/anonymousFunction.go |  2 ++
 analysis/arrowFunction.go     |  4 ++--
 analysis/function.go          |  2 ++
 analysis/method.go            |  2 ++
 analysis/property.go          | 10 ++++++++--
 analysis/typeDeclaration.go   | 24 +++++++++++++++++-------
 6 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 2934165..7fe69c5 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -56,6 +56,8 @@ func (s *AnonymousFunction) analyseHeader(a analyser, document *Document, node *
 			switch p.Type {
 			case phrase.ParameterDeclarationList:
 				s.analyseParameterDeclarationList(a, document, p)
+			case phrase.ReturnType:
+				processReturnType(document, p)
 			case phrase.AnonymousFunctionUseClause:
 				s.analyseUseClause(a, document, p, variableTable, prevVariableTable)
 			}
diff --git a/analysis/arrowFunction.go b/analysis/arrowFunction.go
index 3c28706..1206267 100644
--- a/analysis/arrowFunction.go
+++ b/analysis/arrowFunction.go
@@ -52,8 +52,8 @@ func (s *ArrowFunction) analyseHeader(a analyser, document *Document, node *phra
 					s.Params = append(s.Params, newParameter(a, document, p))
 				}
 			}
-		default:
-			scanNode(a, document, p)
+		case phrase.ReturnType:
+			processReturnType(document, p)
 		}
 	}
 }
diff --git a/analysis/function.go b/analysis/function.go
index 787efb0..e33279e 100644
--- a/analysis/function.go
+++ b/analysis/function.go
@@ -75,6 +75,8 @@ func (s *Function) analyseHeader(a analyser, document *Document, node *phrase.Ph
 			switch p.Type {
 			case phrase.ParameterDeclarationList:
 				s.analyseParameterDeclarationList(a, document, p)
+			case phrase.ReturnType:
+				processReturnType(document, p)
 			case phrase.Identifier:
 				s.Name = NewTypeString(document.getPhraseText(p))
 			}
diff --git a/analysis/method.go b/analysis/method.go
index c1b199b..62e14e4 100644
--- a/analysis/method.go
+++ b/analysis/method.go
@@ -100,6 +100,8 @@ func (s *Method) analyseHeader(a analyser, document *Document, methodHeader *phr
 				s.VisibilityModifier, s.isStatic, s.ClassModifier = getMemberModifier(p)
 			case phrase.ParameterDeclarationList:
 				s.analyseParameterDeclarationList(a, document, p)
+			case phrase.ReturnType:
+				processReturnType(document, p)
 			case phrase.Identifier:
 				s.Name = document.getPhraseText(p)
 				s.refLocation = document.GetNodeLocation(p)
diff --git a/analysis/property.go b/analysis/property.go
index 5cb871b..c37a538 100644
--- a/analysis/property.go
+++ b/analysis/property.go
@@ -48,14 +48,19 @@ func newPropertyDeclaration(a analyser, document *Document, node *phrase.Phrase)
 	traverser := util.NewTraverser(node)
 	visibility := Public
 	isStatic := false
+	types := newTypeComposite()
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
 			case phrase.MemberModifierList:
 				visibility, isStatic, _ = getMemberModifier(p)
+			case phrase.TypeDeclaration:
+				typeDeclaration := newTypeDeclaration(document, p)
+				document.addSymbol(typeDeclaration)
+				types = typeDeclaration.Type
 			case phrase.PropertyElementList:
-				newPropertyList(a, document, p, visibility, isStatic)
+				newPropertyList(a, document, p, visibility, isStatic, types)
 			}
 		}
 		child = traverser.Advance()
@@ -64,11 +69,12 @@ func newPropertyDeclaration(a analyser, document *Document, node *phrase.Phrase)
 }
 
 func newPropertyList(a analyser, document *Document, node *phrase.Phrase,
-	visibility VisibilityModifierValue, isStatic bool) {
+	visibility VisibilityModifierValue, isStatic bool, types TypeComposite) {
 	traverser := util.NewTraverser(node)
 	for child := traverser.Advance(); child != nil; child = traverser.Advance() {
 		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.PropertyElement {
 			property := newProperty(a, document, p, visibility, isStatic)
+			property.Types.merge(types)
 			document.addSymbol(property)
 		}
 	}
diff --git a/analysis/typeDeclaration.go b/analysis/typeDeclaration.go
index 1c4d590..c554071 100644
--- a/analysis/typeDeclaration.go
+++ b/analysis/typeDeclaration.go
@@ -17,13 +17,6 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 			Location: document.GetNodeLocation(node),
 		},
 	}
-	if node.Type == phrase.TypeDeclaration {
-		typeString := transformQualifiedName(node, document)
-		typeDeclaration.Name = typeString.GetOriginal()
-		typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
-		typeDeclaration.Type.add(typeString)
-		return typeDeclaration
-	}
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	for child != nil {
@@ -32,6 +25,14 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
 				typeString := transformQualifiedName(p, document)
 				typeDeclaration.Name = typeString.GetOriginal()
+				if IsNameRelative(typeDeclaration.Name) {
+					typeDeclaration.Type.merge(newRelativeScope(document, typeDeclaration.Location).Types)
+					break
+				}
+				if IsNameParent(typeDeclaration.Name) {
+					typeDeclaration.Type.merge(newParentScope(document, typeDeclaration.Location).Types)
+					break
+				}
 				typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 				typeDeclaration.Type.add(typeString)
 			}
@@ -41,6 +42,15 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 	return typeDeclaration
 }
 
+// processReturnType adds the type declaration of a return type
+func processReturnType(document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.TypeDeclaration {
+			document.addSymbol(newTypeDeclaration(document, p))
+		}
+	}
+}
+
 func (s *TypeDeclaration) GetLocation() protocol.Location {
 	return s.Location
 }
-- 
2.43.0


From 960dbda62f0df10e652471d363b1f20354236435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:14 +0000
Subject: [PATCH 56/99] fix: complete the interfaces which an interface extends

---
 internal/lsp/completion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index adbabf5..8837065 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -110,7 +110,7 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 			completionList = interfaceCompletion(completionCtx, word)
 		case phrase.QualifiedNameList:
 			switch nodes.Parent().Type {
-			case phrase.ClassInterfaceClause:
+			case phrase.ClassInterfaceClause, phrase.InterfaceBaseClause:
 				completionList = interfaceCompletion(completionCtx, word)
 			case phrase.TraitUseClause:
 				completionList = traitCompletion(completionCtx, word)
-- 
2.43.0


From 97dc03793202f2aa5c7e681ccce0e37113960917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 57/99] fix: rename variables together with the closures which
 use them

Only the outer or the inner ones were renamed, which broke the code.
---
 analysis/anonymousFunction.go |  1 +
 analysis/variable.go          | 32 ++++++++++++++++++++++++++++++++
 internal/lsp/reference.go     |  4 ++--
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 7fe69c5..5c1f9a2 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -95,6 +95,7 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 						if p, ok := child.(*phrase.Phrase); ok {
 							if p.Type == phrase.AnonymousFunctionUseVariable {
 								variable, shouldAdd := newVariable(a, document, useVariableName(p), true)
+								variableTable.captured[variable.Name] = prevVariableTable
 								prevVariableTable.add(a, variable, variable.GetLocation().Range.End, false)
 								if shouldAdd {
 									document.addSymbol(variable)
diff --git a/analysis/variable.go b/analysis/variable.go
index e5d5087..d691152 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -165,6 +165,8 @@ type VariableTable struct {
 	// names of its params
 	outer  *VariableTable
 	params map[string]bool
+	// captured are the tables which the variables a closure uses are from
+	captured map[string]*VariableTable
 }
 
 func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
@@ -173,6 +175,7 @@ func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
 		variables:      map[string][]contextualVariable{},
 		globalDeclares: map[string]bool{},
 		level:          level,
+		captured:       map[string]*VariableTable{},
 	}
 }
 
@@ -288,6 +291,35 @@ func (vt *VariableTable) unusedVariables() []*Variable {
 	return results
 }
 
+// SharedVariables returns all the occurrences of the variable with the given
+// name, including the ones in closures which use the variable
+func (vt *VariableTable) SharedVariables(name string) []*Variable {
+	vt = vt.owner(name)
+	for outer, ok := vt.captured[name]; ok; outer, ok = vt.captured[name] {
+		vt = outer.owner(name)
+	}
+	results := []*Variable{}
+	visited := map[protocol.Range]struct{}{}
+	var collect func(*VariableTable)
+	collect = func(vt *VariableTable) {
+		for _, ctxVar := range vt.variables[name] {
+			r := ctxVar.v.Location.Range
+			if _, ok := visited[r]; !ok {
+				visited[r] = struct{}{}
+				results = append(results, ctxVar.v)
+			}
+		}
+		for _, child := range vt.children {
+			_, isCaptured := child.captured[name]
+			if isCaptured || (child.outer != nil && !child.params[name]) {
+				collect(child)
+			}
+		}
+	}
+	collect(vt)
+	return results
+}
+
 // GetContextualVariables returns the variable instances with the given name
 func (vt *VariableTable) GetContextualVariables(name string) []contextualVariable {
 	vt = vt.owner(name)
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index f96cc0b..268e8a6 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -116,9 +116,9 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 		varTable := doc.GetVariableTableAt(pos)
 		if varTable != nil {
 			var changes []protocol.TextEdit
-			for _, ctxVar := range varTable.GetContextualVariables(v.Name) {
+			for _, variable := range varTable.SharedVariables(v.Name) {
 				changes = append(changes, protocol.TextEdit{
-					Range:   ctxVar.Variable().Location.Range,
+					Range:   variable.Location.Range,
 					NewText: params.NewName,
 				})
 			}
-- 
2.43.0


From 63276c94e07fc62658f89abe7668e75a9f0a47a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:17 +0000
Subject: [PATCH 58/99] fix: do not treat the question mark of nullable types
 as a part of the name

---
 analysis/typeDeclaration.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/analysis/typeDeclaration.go b/analysis/typeDeclaration.go
index c554071..157281d 100644
--- a/analysis/typeDeclaration.go
+++ b/analysis/typeDeclaration.go
@@ -25,6 +25,8 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
 				typeString := transformQualifiedName(p, document)
 				typeDeclaration.Name = typeString.GetOriginal()
+				// The question mark of nullable types is not a part of the name
+				typeDeclaration.Location = document.GetNodeLocation(p)
 				if IsNameRelative(typeDeclaration.Name) {
 					typeDeclaration.Type.merge(newRelativeScope(document, typeDeclaration.Location).Types)
 					break
-- 
2.43.0


From b22502771803e3687a71344f98585a2f5c1f2e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 59/99] fix: complete members when the access is followed by
 other code

The access without a name was located at the following token, and it is the symbol before
the cursor if the token is adjacent to the cursor, so that its scope was not found.
---
 analysis/memberAccess.go   | 13 +++++++++++++
 internal/lsp/completion.go |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index 24e5f37..f5fd481 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -22,6 +22,9 @@ func readMemberName(a analyser, document *Document, traverser *util.Traverser) (
 	memberName := traverser.Advance()
 	name := ""
 	if p, ok := memberName.(*phrase.Phrase); ok && p.Type == phrase.MemberName {
+		if isMissing(p) {
+			return name, location
+		}
 		location = document.GetNodeLocation(p)
 		for _, child := range p.Children {
 			if t, ok := child.(*lexer.Token); ok && t.Type == lexer.Name {
@@ -48,6 +51,16 @@ func readMemberName(a analyser, document *Document, traverser *util.Traverser) (
 	return name, location
 }
 
+// isMissing checks whether there is nothing but a parse error in the node
+func isMissing(p *phrase.Phrase) bool {
+	for _, child := range p.Children {
+		if _, ok := child.(*phrase.ParseError); !ok {
+			return false
+		}
+	}
+	return true
+}
+
 // MemberAccessExpression is the base struct for non-static member access
 type MemberAccessExpression struct {
 	Expression
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 8837065..9dd6754 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -147,6 +147,9 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 		}
 	case phrase.PropertyAccessExpression:
 		s := document.HasTypesBeforePos(params.Position)
+		if access, ok := s.(*analysis.PropertyAccess); ok && access.Name == "" {
+			s = access.Scope
+		}
 		if s != nil {
 			s.Resolve(resolveCtx)
 			completionList = memberAccessCompletion(completionCtx, word, fromHasTypes(s))
-- 
2.43.0


From 109f87448f09df7f99cc80457758d4254fd6bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:36 +0000
Subject: [PATCH 60/99] fix: complete the qualified names of traits

---
 analysis/trait.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/analysis/trait.go b/analysis/trait.go
index 6ceb9d0..4ac30cc 100644
--- a/analysis/trait.go
+++ b/analysis/trait.go
@@ -16,6 +16,7 @@ type Trait struct {
 	Name TypeString
 }
 
+var _ HasScope = (*Trait)(nil)
 var _ Symbol = (*Trait)(nil)
 var _ BlockSymbol = (*Trait)(nil)
 
@@ -82,6 +83,16 @@ func (s *Trait) GetIndexableName() string {
 	return s.Name.GetOriginal()
 }
 
+// GetScope returns the namespace of the trait
+func (s *Trait) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+// IsScopeSymbol always returns false
+func (s *Trait) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Trait) GetIndexCollection() string {
 	return traitCompletionIndex
 }
-- 
2.43.0


From 5fb96621fefa6c0c68fb3b2421e7f80638668e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 61/99] fix: separate the namespace from the names of constants
 which are defined by define

The name of the constant is the last part, the rest is the namespace: without this the
whole name was inserted behind the current namespace by completion. Backslashes can also be
escaped.
---
 analysis/define.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/analysis/define.go b/analysis/define.go
index 2517538..ad691b1 100644
--- a/analysis/define.go
+++ b/analysis/define.go
@@ -1,6 +1,8 @@
 package analysis
 
 import (
+	"strings"
+
 	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/analysis/storage"
@@ -71,7 +73,13 @@ func (s *Define) analyseArgs(document *Document, args *ArgumentList) {
 	if token, ok := firstArg.(*lexer.Token); ok {
 		if token.Type == lexer.StringLiteral {
 			stringText := document.getTokenText(token)
-			s.Name = NewTypeString(stringText[1 : len(stringText)-1])
+			name := strings.ReplaceAll(stringText[1:len(stringText)-1], "\\\\", "\\")
+			namespace := ""
+			if i := strings.LastIndex(name, "\\"); i > 0 {
+				namespace, name = name[:i], name[i+1:]
+			}
+			s.Name = NewTypeString(name)
+			s.Name.SetNamespace(namespace)
 		}
 	}
 	if len(args.GetArguments()) >= 2 {
-- 
2.43.0


From 5df611e17eba117133f8ccceb9ecc67145caa237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:20 +0000
Subject: [PATCH 62/99] fix: complete only classes which a class extends

The name is also a class access, and all types replaced the classes.
---
 internal/lsp/completion.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 9dd6754..6db162c 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -177,7 +177,9 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	case *analysis.ClassTypeDesignator:
 		completionList = classCompletion(completionCtx, s.Name)
 	case *analysis.ClassAccess:
-		completionList = typeCompletion(completionCtx, s.Name)
+		if completionList == nil {
+			completionList = typeCompletion(completionCtx, s.Name)
+		}
 	case *analysis.TypeDeclaration:
 		completionList = typeCompletion(completionCtx, s.Name)
 	}
-- 
2.43.0


From 394f55057735121017b1a753cc370c8092add050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:52 +0000
Subject: [PATCH 63/99] fix: do not offer anonymous classes

They do not have a name which can be referred to.
---
 analysis/anonymousClass.go | 11 ++++++++++-
 analysis/store.go          |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/analysis/anonymousClass.go b/analysis/anonymousClass.go
index a6391d6..4945883 100644
--- a/analysis/anonymousClass.go
+++ b/analysis/anonymousClass.go
@@ -3,17 +3,26 @@ package analysis
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"strings"
 
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
+// anonymousClassPrefix cannot be the start of a name in PHP
+const anonymousClassPrefix = "anonClass#"
+
+// isAnonymous checks whether the class doesn't have a name
+func (s *Class) isAnonymous() bool {
+	return strings.HasPrefix(s.Name.GetOriginal(), anonymousClassPrefix)
+}
+
 func newAnonymousClass(a analyser, document *Document, node *phrase.Phrase) Symbol {
 	class := &Class{
 		Location: document.GetNodeLocation(node),
 	}
 	hash := md5.Sum([]byte(class.Location.URI))
-	class.Name = NewTypeString("anonClass#" + hex.EncodeToString(hash[:6]) + "#" + class.Location.Range.Start.String())
+	class.Name = NewTypeString(anonymousClassPrefix + hex.EncodeToString(hash[:6]) + "#" + class.Location.Range.Start.String())
 	class.Name.SetNamespace(document.currImportTable().GetNamespace())
 	document.addClass(class)
 	phpDoc := document.getValidPhpDoc(class.Location)
diff --git a/analysis/store.go b/analysis/store.go
index 4df7529..aee2caa 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -786,6 +786,10 @@ func (s *Store) getClassesByScopeStream(scope string, onData func(*Class) onData
 func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class, SearchResult) {
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	classes := []*Class{}
+	options = options.WithPredicate(func(s Symbol) bool {
+		class, ok := s.(*Class)
+		return !ok || !class.isAnonymous()
+	})
 	if scope != "" {
 		// The names of the scope are also the prefix of the ones in its sub-namespaces
 		options = options.WithPredicate(namespacePredicate(scope))
-- 
2.43.0


From 939158831ed6daa9940dd13dac1aadfe7fa2f0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:39 +0000
Subject: [PATCH 64/99] fix: rename variables from all of their occurrences

Renaming at parameters, variables in front of ::, names of members and at the end of arrow
functions did nothing, because the symbol at the position is another one.
---
 analysis/variable.go      | 43 +++++++++++++++++++++++++++++++++++++++
 internal/lsp/reference.go | 24 ++++++++--------------
 2 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/analysis/variable.go b/analysis/variable.go
index d691152..a834d75 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -2,6 +2,7 @@ package analysis
 
 import (
 	"sort"
+	"strings"
 
 	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
@@ -320,6 +321,48 @@ func (vt *VariableTable) SharedVariables(name string) []*Variable {
 	return results
 }
 
+// SharedVariablesAt returns all the occurrences of the variable at the position
+func (s *Document) SharedVariablesAt(pos protocol.Position) []*Variable {
+	var found *Variable
+	var foundTable *VariableTable
+	isBetter := func(r protocol.Range) bool {
+		if found == nil {
+			return true
+		}
+		// The position can be at the end of a variable and at the start of the next one,
+		// names of variables can be inside of other variables
+		return protocol.ComparePos(r.Start, found.Location.Range.Start) >= 0 &&
+			protocol.ComparePos(r.End, pos) > 0
+	}
+	queue := append([]*VariableTable(nil), s.variableTables...)
+	for len(queue) > 0 {
+		vt := queue[0]
+		queue = append(queue[1:], vt.children...)
+		for name, ctxVars := range vt.variables {
+			if !isVariableName(name) {
+				continue
+			}
+			for _, ctxVar := range ctxVars {
+				r := ctxVar.v.Location.Range
+				if protocol.ComparePos(r.Start, pos) > 0 || protocol.ComparePos(pos, r.End) > 0 || !isBetter(r) {
+					continue
+				}
+				found, foundTable = ctxVar.v, vt
+			}
+		}
+	}
+	if found == nil {
+		return nil
+	}
+	return foundTable.SharedVariables(found.Name)
+}
+
+// isVariableName checks whether the variable has got a name, and is not a variable whose name
+// is the value of an expression
+func isVariableName(name string) bool {
+	return len(name) > 1 && name != "$this" && !strings.ContainsAny(name[1:], "${")
+}
+
 // GetContextualVariables returns the variable instances with the given name
 func (vt *VariableTable) GetContextualVariables(name string) []contextualVariable {
 	vt = vt.owner(name)
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index 268e8a6..d93bd5f 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -106,24 +106,18 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 	doc.Lock()
 	defer doc.Unlock()
 	store.LoadDocument(doc)
-	pos := params.Position
-	symbol := doc.HasTypesAtPos(pos)
 	result := &protocol.WorkspaceEdit{
 		Changes: make(map[string][]protocol.TextEdit),
 	}
-	switch v := symbol.(type) {
-	case *analysis.Variable:
-		varTable := doc.GetVariableTableAt(pos)
-		if varTable != nil {
-			var changes []protocol.TextEdit
-			for _, variable := range varTable.SharedVariables(v.Name) {
-				changes = append(changes, protocol.TextEdit{
-					Range:   variable.Location.Range,
-					NewText: params.NewName,
-				})
-			}
-			result.Changes[params.TextDocument.URI] = changes
-		}
+	var changes []protocol.TextEdit
+	for _, variable := range doc.SharedVariablesAt(params.Position) {
+		changes = append(changes, protocol.TextEdit{
+			Range:   variable.Location.Range,
+			NewText: params.NewName,
+		})
+	}
+	if len(changes) > 0 {
+		result.Changes[params.TextDocument.URI] = changes
 	}
 	return result, nil
 }
-- 
2.43.0


From 7942071c9ba9a3b541993e415a2682c100ccc261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:46 +0000
Subject: [PATCH 65/99] fix: offer the parameters at the end of arrow functions

---
 analysis/document.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analysis/document.go b/analysis/document.go
index 554c1ec..24f3c16 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -453,7 +453,9 @@ func (s *Document) GetVariableTableAt(pos protocol.Position) *VariableTable {
 			return vt
 		}
 		for _, child := range vt.children {
-			if protocol.IsInRange(pos, child.locationRange) == 0 {
+			if protocol.IsInRange(pos, child.locationRange) == 0 ||
+				// There is nothing behind the expression of an arrow function which ends it
+				(child.outer != nil && protocol.ComparePos(pos, child.locationRange.End) == 0) {
 				return traverseAndFind(child)
 			}
 		}
-- 
2.43.0


From 22866b763f6f6f642da560ecae438ce6b140d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 66/99] fix: keep the dollar sign when variables are renamed

The new name can be without it, because clients do not have to count it as a part of the
word under the cursor.
---
 internal/lsp/reference.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index d93bd5f..a768646 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -2,6 +2,7 @@ package lsp
 
 import (
 	"context"
+	"strings"
 
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/analysis"
@@ -109,11 +110,13 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 	result := &protocol.WorkspaceEdit{
 		Changes: make(map[string][]protocol.TextEdit),
 	}
+	// Clients might not count the dollar sign as a part of the word which is renamed
+	newName := "$" + strings.TrimPrefix(params.NewName, "$")
 	var changes []protocol.TextEdit
 	for _, variable := range doc.SharedVariablesAt(params.Position) {
 		changes = append(changes, protocol.TextEdit{
 			Range:   variable.Location.Range,
-			NewText: params.NewName,
+			NewText: newName,
 		})
 	}
 	if len(changes) > 0 {
-- 
2.43.0


From b4390030d58267210fe98e7d8bf175ae0fd661cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:50 +0000
Subject: [PATCH 67/99] fix: analyse the variables in ${name} inside of strings

The names were constants, so these variables were not renamed and looked unused.
---
 analysis/document.go      |  5 +++++
 analysis/symbolBlock.go   |  2 +-
 analysis/variable.go      | 33 +++++++++++++++++++++++++++++++++
 internal/lsp/reference.go |  5 +++--
 4 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 24f3c16..38a65f7 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -365,6 +365,11 @@ func (s *Document) getPhraseText(p *phrase.Phrase) string {
 	return s.textBetween(firstToken.Offset, lastToken.Offset+lastToken.Length)
 }
 
+// TextInRange returns the text in the range
+func (s *Document) TextInRange(r protocol.Range) string {
+	return s.textBetween(s.OffsetAtPosition(r.Start), s.OffsetAtPosition(r.End))
+}
+
 // textBetween returns the text between the offsets, the last token can end after
 // the text, see parse
 func (s *Document) textBetween(start, end int) string {
diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 13abbbb..ce99330 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -71,7 +71,6 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.DoStatement,
 	phrase.DoubleQuotedStringLiteral,
 	phrase.EncapsulatedVariableList,
-	phrase.EncapsulatedVariable,
 	phrase.RequireOnceExpression,
 	phrase.ErrorControlExpression,
 	phrase.BitwiseExpression,
@@ -123,6 +122,7 @@ func init() {
 		phrase.DocumentComment:                     newPhpDocFromNode,
 		phrase.CatchClause:                         processCatchClause,
 		phrase.StaticVariableDeclaration:           newStaticVariable,
+		phrase.EncapsulatedVariable:                newEncapsulatedVariable,
 	}
 }
 
diff --git a/analysis/variable.go b/analysis/variable.go
index a834d75..4aca02b 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -52,6 +52,39 @@ func newStaticVariable(a analyser, document *Document, node *phrase.Phrase) Symb
 	return nil
 }
 
+// newEncapsulatedVariable processes an expression in a string. In ${name} and ${name[0]} the name
+// is the one of a variable
+func newEncapsulatedVariable(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	for i, child := range node.Children {
+		p, ok := child.(*phrase.Phrase)
+		if !ok || i == 0 || !isToken(node.Children[i-1], lexer.DollarCurlyOpen) {
+			scanNode(a, document, child)
+			continue
+		}
+		parent := p
+		if p.Type == phrase.SubscriptExpression || p.Type == phrase.ConstantAccessExpression {
+			p, ok = p.Children[0].(*phrase.Phrase)
+		}
+		if !ok || p.Type != phrase.QualifiedName || strings.Contains(document.getPhraseText(p), "\\") {
+			scanNode(a, document, child)
+			continue
+		}
+		variable := newVariableWithoutPushing(document, p)
+		variable.Name = "$" + variable.Name
+		document.pushVariable(a, variable, variable.GetLocation().Range.End, false)
+		document.addSymbol(variable)
+		for _, child := range parent.Children[1:] {
+			scanNode(a, document, child)
+		}
+	}
+	return nil
+}
+
+func isToken(node phrase.AstNode, tokenType lexer.TokenType) bool {
+	t, ok := node.(*lexer.Token)
+	return ok && t.Type == tokenType
+}
+
 func newVariableWithoutPushing(document *Document, node phrase.AstNode) *Variable {
 	variable := &Variable{
 		Expression: Expression{
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index a768646..4177cc2 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -115,8 +115,9 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 	var changes []protocol.TextEdit
 	for _, variable := range doc.SharedVariablesAt(params.Position) {
 		changes = append(changes, protocol.TextEdit{
-			Range:   variable.Location.Range,
-			NewText: newName,
+			Range: variable.Location.Range,
+			// There is no dollar sign in front of the name in "${name}"
+			NewText: newName[len(variable.Name)-len(doc.TextInRange(variable.Location.Range)):],
 		})
 	}
 	if len(changes) > 0 {
-- 
2.43.0


From 7d21f6a26d41072e12c1776dd79a3f41b5680019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 68/99] fix: rename global variables together with the
 functions which declare them as global

---
 analysis/variable.go | 62 ++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/analysis/variable.go b/analysis/variable.go
index 4aca02b..ce566a2 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -325,36 +325,29 @@ func (vt *VariableTable) unusedVariables() []*Variable {
 	return results
 }
 
-// SharedVariables returns all the occurrences of the variable with the given
-// name, including the ones in closures which use the variable
-func (vt *VariableTable) SharedVariables(name string) []*Variable {
+// origin returns the table which the variables with the name in the given table are from, this
+// follows the ones which closures use and the global ones
+func (s *Document) origin(vt *VariableTable, name string) *VariableTable {
 	vt = vt.owner(name)
 	for outer, ok := vt.captured[name]; ok; outer, ok = vt.captured[name] {
 		vt = outer.owner(name)
 	}
-	results := []*Variable{}
-	visited := map[protocol.Range]struct{}{}
-	var collect func(*VariableTable)
-	collect = func(vt *VariableTable) {
-		for _, ctxVar := range vt.variables[name] {
-			r := ctxVar.v.Location.Range
-			if _, ok := visited[r]; !ok {
-				visited[r] = struct{}{}
-				results = append(results, ctxVar.v)
-			}
-		}
-		for _, child := range vt.children {
-			_, isCaptured := child.captured[name]
-			if isCaptured || (child.outer != nil && !child.params[name]) {
-				collect(child)
-			}
-		}
+	if vt.canReferenceGlobal(name) {
+		return s.variableTables[0]
 	}
-	collect(vt)
-	return results
+	return vt
 }
 
-// SharedVariablesAt returns all the occurrences of the variable at the position
+func (s *Document) allVariableTables() []*VariableTable {
+	tables := append([]*VariableTable(nil), s.variableTables...)
+	for i := 0; i < len(tables); i++ {
+		tables = append(tables, tables[i].children...)
+	}
+	return tables
+}
+
+// SharedVariablesAt returns all the occurrences of the variable at the position, including the
+// ones in closures which use the variable and in functions which declare it as global
 func (s *Document) SharedVariablesAt(pos protocol.Position) []*Variable {
 	var found *Variable
 	var foundTable *VariableTable
@@ -367,10 +360,8 @@ func (s *Document) SharedVariablesAt(pos protocol.Position) []*Variable {
 		return protocol.ComparePos(r.Start, found.Location.Range.Start) >= 0 &&
 			protocol.ComparePos(r.End, pos) > 0
 	}
-	queue := append([]*VariableTable(nil), s.variableTables...)
-	for len(queue) > 0 {
-		vt := queue[0]
-		queue = append(queue[1:], vt.children...)
+	tables := s.allVariableTables()
+	for _, vt := range tables {
 		for name, ctxVars := range vt.variables {
 			if !isVariableName(name) {
 				continue
@@ -387,7 +378,22 @@ func (s *Document) SharedVariablesAt(pos protocol.Position) []*Variable {
 	if found == nil {
 		return nil
 	}
-	return foundTable.SharedVariables(found.Name)
+	origin := s.origin(foundTable, found.Name)
+	results := []*Variable{}
+	visited := map[protocol.Range]struct{}{}
+	for _, vt := range tables {
+		if s.origin(vt, found.Name) != origin {
+			continue
+		}
+		for _, ctxVar := range vt.variables[found.Name] {
+			r := ctxVar.v.Location.Range
+			if _, ok := visited[r]; !ok {
+				visited[r] = struct{}{}
+				results = append(results, ctxVar.v)
+			}
+		}
+	}
+	return results
 }
 
 // isVariableName checks whether the variable has got a name, and is not a variable whose name
-- 
2.43.0


From 373756dd0e266ac8a2d8487c8e102636545df227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:22 +0000
Subject: [PATCH 69/99] fix: analyse the variables with longer names in ${name}
 inside of strings

The parser gives names of two or more characters differently from single letters
---
 analysis/variable.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/analysis/variable.go b/analysis/variable.go
index ce566a2..d4f8360 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -56,6 +56,10 @@ func newStaticVariable(a analyser, document *Document, node *phrase.Phrase) Symb
 // is the one of a variable
 func newEncapsulatedVariable(a analyser, document *Document, node *phrase.Phrase) Symbol {
 	for i, child := range node.Children {
+		if value, ok := child.(phrase.Phrase); ok {
+			// ${name[0]} with a longer name
+			child = &value
+		}
 		p, ok := child.(*phrase.Phrase)
 		if !ok || i == 0 || !isToken(node.Children[i-1], lexer.DollarCurlyOpen) {
 			scanNode(a, document, child)
@@ -65,11 +69,16 @@ func newEncapsulatedVariable(a analyser, document *Document, node *phrase.Phrase
 		if p.Type == phrase.SubscriptExpression || p.Type == phrase.ConstantAccessExpression {
 			p, ok = p.Children[0].(*phrase.Phrase)
 		}
-		if !ok || p.Type != phrase.QualifiedName || strings.Contains(document.getPhraseText(p), "\\") {
+		var variable *Variable
+		if ok && (p.Type == phrase.QualifiedName || p.Type == phrase.SimpleVariable) {
+			variable = newVariableWithoutPushing(document, p)
+		} else if t, isName := parent.Children[0].(*lexer.Token); isName && t.Type == lexer.VariableName {
+			variable = newVariableWithoutPushing(document, t)
+		}
+		if variable == nil || !isVariableName("$"+variable.Name) || strings.Contains(variable.Name, "\\") {
 			scanNode(a, document, child)
 			continue
 		}
-		variable := newVariableWithoutPushing(document, p)
 		variable.Name = "$" + variable.Name
 		document.pushVariable(a, variable, variable.GetLocation().Range.End, false)
 		document.addSymbol(variable)
-- 
2.43.0


From c9b76212b7a8bc0200c878ae94859f1589811d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:03 +0000
Subject: [PATCH 70/99] fix: import functions and constants from mixed groups

The clauses of a group can be of different types. The whole clause is reported when it is unused
---
 analysis/use.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/analysis/use.go b/analysis/use.go
index e1948eb..4dd96e8 100644
--- a/analysis/use.go
+++ b/analysis/use.go
@@ -95,20 +95,28 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 
 				name := ""
 				alias := ""
+				clauseType := useType
 				child = traverser.Advance()
 				for child != nil {
-					if p, ok = child.(*phrase.Phrase); ok {
-						switch p.Type {
+					if clause, ok := child.(*phrase.Phrase); ok {
+						switch clause.Type {
 						case phrase.NamespaceName:
-							name = document.getPhraseText(p)
+							name = document.getPhraseText(clause)
 						case phrase.NamespaceAliasingClause:
-							alias = getAliasFromNode(document, p)
+							alias = getAliasFromNode(document, clause)
+						}
+					} else if t, ok := child.(*lexer.Token); ok {
+						switch t.Type {
+						case lexer.Function:
+							clauseType = UseFunction
+						case lexer.Const:
+							clauseType = UseConst
 						}
 					}
 					child = traverser.Advance()
 				}
 				name = prefix + "\\" + name
-				addUseToImportTable(document, useType, alias, name, document.NodeRange(p))
+				addUseToImportTable(document, clauseType, alias, name, document.NodeRange(p))
 
 				traverser, err = traverser.Ascend()
 				if err != nil {
-- 
2.43.0


From 18211795a327cba3608ecfc02089b7334e1c28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:31 +0000
Subject: [PATCH 71/99] fix: report inherited constants which are deprecated

Only the constants which the class declares itself were looked at
---
 analysis/diagnostic.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/analysis/diagnostic.go b/analysis/diagnostic.go
index 0b1bb0f..40639a3 100644
--- a/analysis/diagnostic.go
+++ b/analysis/diagnostic.go
@@ -210,13 +210,21 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 				}
 			}
 		case *ScopedConstantAccess:
+			currentClass := ctx.document.GetClassScopeAtSymbol(v)
 		LScopedConstant:
 			for _, scopeType := range v.ResolveAndGetScope(ctx).Resolve() {
-				for _, c := range q.GetClassConsts(scopeType.GetFQN(), v.Name) {
-					if c.deprecatedTag != nil {
+				ccs := EmptyInheritedClassConst()
+				for _, class := range q.GetClasses(scopeType.GetFQN()) {
+					ccs.Merge(q.GetClassClassConsts(class, v.Name, ccs.SearchedFQNs))
+				}
+				for _, intf := range q.GetInterfaces(scopeType.GetFQN()) {
+					ccs.Merge(q.GetInterfaceClassConsts(intf, v.Name, ccs.SearchedFQNs))
+				}
+				for _, c := range ccs.ReduceStatic(currentClass, v) {
+					if c.Const.deprecatedTag != nil {
 						diagnostics = append(diagnostics, create(
 							v.Location.Range,
-							deprecatedDescription(c.ReferenceFQN()+" is deprecated", c.deprecatedTag),
+							deprecatedDescription(c.Const.ReferenceFQN()+" is deprecated", c.Const.deprecatedTag),
 						))
 						break LScopedConstant
 					}
-- 
2.43.0


From 405f09a7f8d063ff66cf5832bd6673451177aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:55 +0000
Subject: [PATCH 72/99] fix: report unused imports even though fully qualified
 names begin with them

echo \Lib\A does not use the import Lib
---
 analysis/importTable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index c5ecda3..673d0fa 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -316,6 +316,10 @@ func (i *ImportTable) useConstant(name string) {
 }
 
 func (i *ImportTable) useFunctionOrClass(name TypeString) {
+	if IsFQN(name.GetFQN()) {
+		// Imports do not matter for fully qualified names
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
@@ -325,6 +329,10 @@ func (i *ImportTable) useFunctionOrClass(name TypeString) {
 }
 
 func (i *ImportTable) useConstOrClass(name TypeString) {
+	if IsFQN(name.GetFQN()) {
+		// Imports do not matter for fully qualified names
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
-- 
2.43.0


From d7384ce28c1f8cb6b29f24e2c0ef13045ce01726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:00 +0000
Subject: [PATCH 73/99] fix: keep quiet about variables whose values are read
 in later iterations or through references

Variables were reported as never read even though their values are read by
the next iteration of a loop, or by someone else through a reference, a static
or a global variable.
---
 analysis/anonymousFunction.go |  3 ++
 analysis/arrowFunction.go     | 13 +++----
 analysis/assignment.go        |  6 ++++
 analysis/document.go          | 10 ++++++
 analysis/foreach.go           |  5 +++
 analysis/function.go          |  1 +
 analysis/globalVariable.go    |  3 +-
 analysis/method.go            |  1 +
 analysis/symbolBlock.go       |  6 ++++
 analysis/variable.go          | 64 +++++++++++++++++++++++++++++++++--
 10 files changed, 102 insertions(+), 10 deletions(-)

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 5c1f9a2..06221a5 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -72,6 +72,7 @@ func (s *AnonymousFunction) analyseParameterDeclarationList(a analyser, document
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.ParameterDeclaration {
 			param := newParameter(a, document, p)
+			shareReference(document, p, document.getCurrentVariableTable())
 			s.Params = append(s.Params, param)
 		}
 		child = traverser.Advance()
@@ -96,6 +97,8 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 							if p.Type == phrase.AnonymousFunctionUseVariable {
 								variable, shouldAdd := newVariable(a, document, useVariableName(p), true)
 								variableTable.captured[variable.Name] = prevVariableTable
+								shareReference(document, p, variableTable)
+								shareReference(document, p, prevVariableTable)
 								prevVariableTable.add(a, variable, variable.GetLocation().Range.End, false)
 								if shouldAdd {
 									document.addSymbol(variable)
diff --git a/analysis/arrowFunction.go b/analysis/arrowFunction.go
index 1206267..cd8237d 100644
--- a/analysis/arrowFunction.go
+++ b/analysis/arrowFunction.go
@@ -29,17 +29,15 @@ func newArrowFunction(a analyser, document *Document, node *phrase.Phrase) Symbo
 			scanNode(a, document, child)
 			continue
 		}
-		arrowFunc.analyseHeader(a, document, p)
-		for _, param := range arrowFunc.Params {
-			variableTable.addParam(a, param.ToVariable())
-		}
+		arrowFunc.analyseHeader(a, document, p, variableTable)
 	}
 	document.popBlock()
 	document.popVariableTable()
 	return nil
 }
 
-func (s *ArrowFunction) analyseHeader(a analyser, document *Document, node *phrase.Phrase) {
+func (s *ArrowFunction) analyseHeader(a analyser, document *Document, node *phrase.Phrase,
+	variableTable *VariableTable) {
 	for _, child := range node.Children {
 		p, ok := child.(*phrase.Phrase)
 		if !ok {
@@ -49,7 +47,10 @@ func (s *ArrowFunction) analyseHeader(a analyser, document *Document, node *phra
 		case phrase.ParameterDeclarationList:
 			for _, param := range p.Children {
 				if p, ok := param.(*phrase.Phrase); ok && p.Type == phrase.ParameterDeclaration {
-					s.Params = append(s.Params, newParameter(a, document, p))
+					param := newParameter(a, document, p)
+					s.Params = append(s.Params, param)
+					variableTable.addParam(a, param.ToVariable())
+					shareReference(document, p, variableTable)
 				}
 			}
 		case phrase.ReturnType:
diff --git a/analysis/assignment.go b/analysis/assignment.go
index d76df22..9b423b9 100644
--- a/analysis/assignment.go
+++ b/analysis/assignment.go
@@ -11,6 +11,12 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	haveProcessed := false
+	if node.Type == phrase.ByRefAssignmentExpression {
+		shareReference(document, node, document.getCurrentVariableTable())
+		if p, ok := firstChild.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable {
+			document.getCurrentVariableTable().setShared(document.getPhraseText(p))
+		}
+	}
 	if p, ok := firstChild.(*phrase.Phrase); ok {
 		if p.Type == phrase.SimpleVariable {
 			analyseVariableAssignment(a, document, p, node)
diff --git a/analysis/document.go b/analysis/document.go
index 38a65f7..2b0321c 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -814,3 +814,13 @@ func (s *Document) UnusedVariables() []*Variable {
 	}
 	return results
 }
+
+// setGlobal declares the variable as global in the current table
+func (s *Document) setGlobal(name string) {
+	table := s.getCurrentVariableTable()
+	table.setShared(name)
+	table.setReferenceGlobal(name)
+	if global := s.variableTables[0]; table.owner(name) != global {
+		global.used[name] = true
+	}
+}
diff --git a/analysis/foreach.go b/analysis/foreach.go
index 2c142f6..f39dc91 100644
--- a/analysis/foreach.go
+++ b/analysis/foreach.go
@@ -20,6 +20,10 @@ func analyseForeachStatement(a analyser, document *Document, node *phrase.Phrase
 			switch p.Type {
 			case phrase.ForeachCollection:
 				f = newForeachCollection(a, document, p)
+				document.getCurrentVariableTable().addLoop(protocol.Range{
+					Start: document.NodeRange(p).End,
+					End:   document.NodeRange(node).End,
+				})
 			case phrase.ForeachKey:
 				analyseForeachKey(a, document, p)
 			case phrase.ForeachValue:
@@ -59,6 +63,7 @@ func analyseForeachKey(a analyser, document *Document, node *phrase.Phrase) {
 }
 
 func analyseForeachValue(a analyser, document *Document, f *ForeachCollection, node *phrase.Phrase) {
+	shareReference(document, node, document.getCurrentVariableTable())
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	for child != nil {
diff --git a/analysis/function.go b/analysis/function.go
index e33279e..c777a93 100644
--- a/analysis/function.go
+++ b/analysis/function.go
@@ -91,6 +91,7 @@ func (s *Function) analyseParameterDeclarationList(a analyser, document *Documen
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.ParameterDeclaration {
 			param := newParameter(a, document, p)
+			shareReference(document, p, document.getCurrentVariableTable())
 			s.Params = append(s.Params, param)
 		}
 		child = traverser.Advance()
diff --git a/analysis/globalVariable.go b/analysis/globalVariable.go
index e4c401b..377aaf9 100644
--- a/analysis/globalVariable.go
+++ b/analysis/globalVariable.go
@@ -52,8 +52,7 @@ func newGlobalVariable(a analyser, document *Document, node *phrase.Phrase) Symb
 	if phpDoc != nil {
 		globalVariable.applyPhpDoc(document, phpDoc)
 	}
-	variableTable := document.getCurrentVariableTable()
-	variableTable.setReferenceGlobal(globalVariable.GetName())
+	document.setGlobal(globalVariable.GetName())
 	document.pushVariable(a, globalVariable.toVariable(), globalVariable.location.Range.End, true)
 	return globalVariable
 }
diff --git a/analysis/method.go b/analysis/method.go
index 62e14e4..fb74d98 100644
--- a/analysis/method.go
+++ b/analysis/method.go
@@ -122,6 +122,7 @@ func (s *Method) analyseParameterDeclarationList(a analyser, document *Document,
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.ParameterDeclaration {
 			param := newParameter(a, document, p)
+			shareReference(document, p, document.getCurrentVariableTable())
 			s.Params = append(s.Params, param)
 		}
 		child = traverser.Advance()
diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index ce99330..27614f4 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -139,6 +139,12 @@ func scanNode(a analyser, document *Document, node phrase.AstNode) {
 		if !isDefine(document, p) {
 			scanForExpression(a, document, p)
 		}
+		switch p.Type {
+		case phrase.WhileStatement, phrase.DoStatement, phrase.ForStatement:
+			document.getCurrentVariableTable().addLoop(document.NodeRange(p))
+		case phrase.ArrayValue:
+			shareReference(document, p, document.getCurrentVariableTable())
+		}
 		if typesToScanForChildren.Has(p.Type) {
 			scanForChildren(a, document, p)
 			return
diff --git a/analysis/variable.go b/analysis/variable.go
index d4f8360..6e49cd8 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -44,6 +44,7 @@ func newStaticVariable(a analyser, document *Document, node *phrase.Phrase) Symb
 	for _, child := range node.Children {
 		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
 			variable, _ := newVariable(a, document, t, false)
+			document.getCurrentVariableTable().setShared(variable.Name)
 			document.addSymbol(variable)
 			continue
 		}
@@ -52,6 +53,26 @@ func newStaticVariable(a analyser, document *Document, node *phrase.Phrase) Symb
 	return nil
 }
 
+// shareReference remembers that the variable which has an ampersand in front of it in the node
+// shares its value
+func shareReference(document *Document, node *phrase.Phrase, table *VariableTable) {
+	isReference := false
+	for _, child := range node.Children {
+		if isToken(child, lexer.Ampersand) {
+			isReference = true
+			continue
+		}
+		if !isReference {
+			continue
+		}
+		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable {
+			table.setShared(document.getPhraseText(p))
+		} else if isToken(child, lexer.VariableName) {
+			table.setShared(document.GetNodeText(child))
+		}
+	}
+}
+
 // newEncapsulatedVariable processes an expression in a string. In ${name} and ${name[0]} the name
 // is the one of a variable
 func newEncapsulatedVariable(a analyser, document *Document, node *phrase.Phrase) Symbol {
@@ -210,6 +231,12 @@ type VariableTable struct {
 	params map[string]bool
 	// captured are the tables which the variables a closure uses are from
 	captured map[string]*VariableTable
+	// shared are the names of the variables whose values can be read from somewhere else,
+	// e.g. through references
+	shared map[string]bool
+	// used are the names of the variables which are used by other tables
+	used  map[string]bool
+	loops []protocol.Range
 }
 
 func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
@@ -219,6 +246,8 @@ func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
 		globalDeclares: map[string]bool{},
 		level:          level,
 		captured:       map[string]*VariableTable{},
+		shared:         map[string]bool{},
+		used:           map[string]bool{},
 	}
 }
 
@@ -322,11 +351,42 @@ func (vt *VariableTable) addChild(child *VariableTable) {
 	vt.children = append(vt.children, child)
 }
 
+// setShared remembers that values which are assigned to the variable can be read from somewhere
+// else than the code after the assignments
+func (vt *VariableTable) setShared(name string) {
+	vt.owner(name).shared[name] = true
+}
+
+// addLoop adds the range of the code which is repeated
+func (vt *VariableTable) addLoop(loop protocol.Range) {
+	vt.loops = append(vt.loops, loop)
+}
+
+// isUsedInLoop checks if there is an occurrence which isn't a declaration in one of the loops
+// around the declaration, such an occurrence is also after the declaration
+func (vt *VariableTable) isUsedInLoop(declaration contextualVariable) bool {
+	pos := declaration.v.GetLocation().Range.Start
+	for _, loop := range vt.loops {
+		if protocol.IsInRange(pos, loop) != 0 {
+			continue
+		}
+		for _, ctxVar := range vt.variables[declaration.v.Name] {
+			if !ctxVar.isDeclaration && protocol.IsInRange(ctxVar.v.GetLocation().Range.Start, loop) == 0 {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (vt *VariableTable) unusedVariables() []*Variable {
 	results := []*Variable{}
-	for _, ctxVars := range vt.variables {
+	for name, ctxVars := range vt.variables {
+		if vt.used[name] || (vt.shared[name] && len(ctxVars) > 1) {
+			continue
+		}
 		for _, ctxVar := range ctxVars {
-			if ctxVar.isDeclaration && !ctxVar.isUsed {
+			if ctxVar.isDeclaration && !ctxVar.isUsed && !vt.isUsedInLoop(ctxVar) {
 				results = append(results, ctxVar.v)
 			}
 		}
-- 
2.43.0


From 428ff288f9637f1442fe273f998d826aede64224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:44 +0000
Subject: [PATCH 74/99] fix: start over when the storage of a workspace cannot
 be opened

A server which was killed while it created its storage left files which could
not be opened, after which nothing was indexed at all.
---
 analysis/storage/goleveldb.go |  6 ++++++
 analysis/store.go             | 17 +++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/analysis/storage/goleveldb.go b/analysis/storage/goleveldb.go
index 8403648..b37a549 100644
--- a/analysis/storage/goleveldb.go
+++ b/analysis/storage/goleveldb.go
@@ -2,6 +2,7 @@ package storage
 
 import (
 	"github.com/syndtr/goleveldb/leveldb"
+	"github.com/syndtr/goleveldb/leveldb/errors"
 	"github.com/syndtr/goleveldb/leveldb/filter"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
 	"github.com/syndtr/goleveldb/leveldb/opt"
@@ -26,6 +27,11 @@ func NewGoLevelDB(path string) (*goLevelDB, error) {
 	return &goLevelDB{db}, nil
 }
 
+// IsCorrupted checks if the error is because of missing or broken files of the storage
+func IsCorrupted(err error) bool {
+	return errors.IsCorrupted(err)
+}
+
 func (s *goLevelDB) Close() {
 	s.db.Close()
 }
diff --git a/analysis/store.go b/analysis/store.go
index aee2caa..e478bab 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -227,6 +227,20 @@ func (s SearchOptions) IsLimitReached() bool {
 // NewStore creates a store with the disk storage or returns an error
 // if the disk storage cannot be created
 func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Store, error) {
+	store, err := openStore(fs, uri, storePath)
+	if err != nil && storage.IsCorrupted(err) {
+		// The server could have been killed while the storage was being created, everything
+		// in there can be indexed again
+		log.Printf("NewStore: recreating %s because %v", storePath, err)
+		if err = os.RemoveAll(storePath); err != nil {
+			return nil, err
+		}
+		store, err = openStore(fs, uri, storePath)
+	}
+	return store, err
+}
+
+func openStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Store, error) {
 	_, err := os.Stat(storePath)
 	if err != nil {
 		if os.IsNotExist(err) {
@@ -240,10 +254,13 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 	}
 	comDB, err := storage.NewGoLevelDB(path.Join(storePath, "completion"))
 	if err != nil {
+		db.Close()
 		return nil, err
 	}
 	greb, err := pogreb.Open(path.Join(storePath, "pogreb"), nil)
 	if err != nil {
+		comDB.Close()
+		db.Close()
 		return nil, err
 	}
 	store := &Store{
-- 
2.43.0


From e9fb08853856552c524b6d435d2f82c7d7b6371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:47 +0000
Subject: [PATCH 75/99] fix: find properties among the workspace symbols by
 their shown names

The names of properties are shown with the dollar sign, but searching for them with it found nothing.
---
 internal/lsp/symbol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index 628d327..442334b 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -2,6 +2,7 @@ package lsp
 
 import (
 	"context"
+	"strings"
 
 	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
@@ -194,7 +195,8 @@ func (s *Server) workspaceSymbol(ctx context.Context, params *protocol.Workspace
 					ContainerName: method.Scope.GetFQN(),
 				})
 			}
-			properties, _ := store.SearchProperties("", params.Query, opts)
+			// Properties are indexed without the dollar sign which their names are shown with
+			properties, _ := store.SearchProperties("", strings.TrimPrefix(params.Query, "$"), opts)
 			for _, property := range properties {
 				symbols = append(symbols, protocol.SymbolInformation{
 					Kind:          protocol.Property,
-- 
2.43.0


From 140c5c41e578c772b322f448834a7c7464798fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:21 +0000
Subject: [PATCH 76/99] fix: find the constants which are defined within other
 expressions

A define() which is the value of a compound assignment, the subject of a foreach, cloned or assigned in a
condition was taken for a call only: its constant was unknown.
---
 analysis/functionCall.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index 8cccc59..f3127b2 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -40,6 +40,10 @@ func tryToNewDefine(a analyser, document *Document, node *phrase.Phrase) Symbol
 }
 
 func newFunctionCall(a analyser, document *Document, node *phrase.Phrase) (HasTypes, bool) {
+	if isDefine(document, node) {
+		newDefine(a, document, node)
+		return nil, false
+	}
 	functionCall := &FunctionCall{
 		Expression: Expression{},
 	}
-- 
2.43.0


From ca2f5e0d9b164679ca7bfc514568c1b6629a6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:30 +0000
Subject: [PATCH 77/99] fix: index words which end with a character outside
 ASCII completely

Only the first byte of the last character of a word which is followed by an underscore was kept: searching or
completing the whole word did not find the name.
---
 analysis/wordtokeniser/casing.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/analysis/wordtokeniser/casing.go b/analysis/wordtokeniser/casing.go
index ae7e70b..8497703 100644
--- a/analysis/wordtokeniser/casing.go
+++ b/analysis/wordtokeniser/casing.go
@@ -16,6 +16,7 @@ func casing(name string) []string {
 	start := 0
 	prev := 0
 	lastTokenIndex := 0
+	lastTokenEnd := 0
 	markNextAsStart := false
 	appendWord := func(word string) {
 		if start == 0 {
@@ -26,7 +27,7 @@ func casing(name string) []string {
 	for i, r := range name {
 		if isNotToken(r) {
 			if start < lastTokenIndex {
-				words = append(words, name[start:lastTokenIndex+1])
+				words = append(words, name[start:lastTokenEnd])
 			}
 			lastClass = 0
 			start = i + 1
@@ -34,6 +35,10 @@ func casing(name string) []string {
 			continue
 		}
 		lastTokenIndex = i
+		lastTokenEnd = i + 1
+		if r != utf8.RuneError {
+			lastTokenEnd = i + utf8.RuneLen(r)
+		}
 		if markNextAsStart {
 			start = i
 			markNextAsStart = false
-- 
2.43.0


From 132cbf39827529ef876d33d09fc66ef33a402e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:18 +0000
Subject: [PATCH 78/99] fix: limit the results of each search instead of all
 searches together

The classes and constants which were found first used up the limit, after which every other search ended with its
first result: functions, methods and properties were not found even by their exact names.
---
 analysis/store.go | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index e478bab..e25a095 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -188,11 +188,11 @@ func (d *symbolDeletor) Delete(batch storage.Batch) {
 	})
 }
 
-// SearchOptions contains predicates and limiter if applicable for searching
+// SearchOptions contains predicates and limit if applicable for searching
 // symbols
 type SearchOptions struct {
 	predicates []func(s Symbol) bool
-	limiter    func() bool
+	limit      int
 }
 
 // NewSearchOptions creates an empty search option
@@ -206,22 +206,15 @@ func (s SearchOptions) WithPredicate(predicate func(s Symbol) bool) SearchOption
 	return s
 }
 
-// WithLimit adds a limiter into the search option
+// WithLimit limits the number of results of each search
 func (s SearchOptions) WithLimit(limit int) SearchOptions {
-	count := 0
-	s.limiter = func() bool {
-		count++
-		return count >= limit
-	}
+	s.limit = limit
 	return s
 }
 
-// IsLimitReached returns true if the limitter reaches the limit
-func (s SearchOptions) IsLimitReached() bool {
-	if s.limiter == nil {
-		return false
-	}
-	return s.limiter()
+// IsLimitReached returns true if the given number of results reaches the limit
+func (s SearchOptions) IsLimitReached(count int) bool {
+	return s.limit > 0 && count >= s.limit
 }
 
 // NewStore creates a store with the disk storage or returns an error
@@ -822,7 +815,7 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
 			if isSymbolValid(class, options) {
 				classes = append(classes, class)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(classes)) {
 					isComplete = false
 					return onDataResult{true}
 				}
@@ -849,7 +842,7 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 			class := ReadClass(d)
 			if isSymbolValid(class, options) {
 				classes = append(classes, class)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(classes)) {
 					return onDataResult{true}
 				}
 			}
@@ -890,7 +883,7 @@ func (s *Store) SearchInterfaces(keyword string, options SearchOptions) ([]*Inte
 			theInterface := ReadInterface(d)
 			if isSymbolValid(theInterface, options) {
 				interfaces = append(interfaces, theInterface)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(interfaces)) {
 					return onDataResult{true}
 				}
 			}
@@ -931,7 +924,7 @@ func (s *Store) SearchTraits(keyword string, options SearchOptions) ([]*Trait, S
 			trait := ReadTrait(d)
 			if isSymbolValid(trait, options) {
 				traits = append(traits, trait)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(traits)) {
 					return onDataResult{true}
 				}
 			}
@@ -976,7 +969,7 @@ func (s *Store) SearchFunctions(keyword string, options SearchOptions) ([]*Funct
 			function := ReadFunction(d)
 			if isSymbolValid(function, options) {
 				functions = append(functions, function)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(functions)) {
 					return onDataResult{true}
 				}
 			}
@@ -1016,7 +1009,7 @@ func (s *Store) SearchConsts(keyword string, options SearchOptions) ([]*Const, S
 			constant := ReadConst(d)
 			if isSymbolValid(constant, options) {
 				consts = append(consts, constant)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(consts)) {
 					return onDataResult{true}
 				}
 			}
@@ -1056,7 +1049,7 @@ func (s *Store) SearchDefines(keyword string, options SearchOptions) ([]*Define,
 			define := ReadDefine(d)
 			if isSymbolValid(define, options) {
 				defines = append(defines, define)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(defines)) {
 					return onDataResult{true}
 				}
 			}
@@ -1119,7 +1112,7 @@ func (s *Store) SearchMethods(scope string, keyword string, options SearchOption
 			method := ReadMethod(d)
 			if isSymbolValid(method, options) {
 				methods = append(methods, method)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(methods)) {
 					return onDataResult{true}
 				}
 			}
@@ -1182,7 +1175,7 @@ func (s *Store) SearchClassConsts(scope string, keyword string, options SearchOp
 			classConst := ReadClassConst(d)
 			if isSymbolValid(classConst, options) {
 				classConsts = append(classConsts, classConst)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(classConsts)) {
 					return onDataResult{true}
 				}
 			}
@@ -1237,7 +1230,7 @@ func (s *Store) SearchProperties(scope string, keyword string, options SearchOpt
 			property := ReadProperty(d)
 			if isSymbolValid(property, options) {
 				properties = append(properties, property)
-				if options.IsLimitReached() {
+				if options.IsLimitReached(len(properties)) {
 					return onDataResult{true}
 				}
 			}
-- 
2.43.0


From 70c22f8bc7cab1e176d895ef8b541f8d281fc93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:35 +0000
Subject: [PATCH 79/99] fix: show the parameter of the argument in front of the
 cursor

With the cursor between an argument and the comma behind it, the next parameter was shown as the active one.
---
 internal/lsp/signature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/signature.go b/internal/lsp/signature.go
index 0ccec8c..4646f98 100644
--- a/internal/lsp/signature.go
+++ b/internal/lsp/signature.go
@@ -49,7 +49,8 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 
 	ranges := argumentList.GetRanges()
 	signatureHelp.ActiveParameter = sort.Search(len(ranges), func(i int) bool {
-		return protocol.IsInRange(pos, ranges[i]) <= 0
+		// The end of an argument, in front of the comma, still belongs to it
+		return protocol.ComparePos(pos, ranges[i].End) <= 0
 	})
 
 	return signatureHelp, nil
-- 
2.43.0


From 19bafcea1d5e804166ae5b5565c22a255272671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 80/99] fix: know the type of callable parameters

The type callable is a keyword to the parser and no name, it was missing in signatures and hovers.
---
 analysis/typeDeclaration.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analysis/typeDeclaration.go b/analysis/typeDeclaration.go
index 157281d..4409716 100644
--- a/analysis/typeDeclaration.go
+++ b/analysis/typeDeclaration.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -38,6 +39,9 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 				typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 				typeDeclaration.Type.add(typeString)
 			}
+		} else if token, ok := child.(*lexer.Token); ok && token.Type == lexer.Callable {
+			typeDeclaration.Name = document.getTokenText(token)
+			typeDeclaration.Type.add(NewTypeString(typeDeclaration.Name))
 		}
 		child = traverser.Advance()
 	}
-- 
2.43.0


From 3b9426ba550bab44e39c8088fce78bfc45574a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 81/99] fix: read all lines of descriptions which end with CRLF

In files with CRLF line ends only the last line of a description was kept, or the second line of the description of a tag replaced it.
---
 analysis/phpDocComment.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/analysis/phpDocComment.go b/analysis/phpDocComment.go
index 9fd866d..6fb56f2 100644
--- a/analysis/phpDocComment.go
+++ b/analysis/phpDocComment.go
@@ -428,7 +428,14 @@ func newPhpDocFromNode(a analyser, document *Document, node *phrase.Phrase) Symb
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
 			case phrase.DocumentCommentDescription:
-				phpDoc.Description = readDescriptionNode(document, p)
+				// There is one node for each line if the lines end with CRLF
+				description := &phpDoc.Description
+				if n := len(phpDoc.tags); n > 0 {
+					description = &phpDoc.tags[n-1].Description
+				}
+				line := stripPattern.ReplaceAllString(document.getPhraseText(p), "")
+				line = strings.TrimRight(strings.ReplaceAll(line, "\r\n", "\n"), "\r\n")
+				*description = strings.TrimSpace(*description + "\n" + line)
 			}
 			if p.Type > phrase.DocumentCommentTagAnchorStart && p.Type < phrase.DocumentCommentTagAnchorEnd {
 				tag, err := parseTag(document, p)
-- 
2.43.0


From 24e71040f3170a59c647bedbc596a0aa780f9a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:37 +0000
Subject: [PATCH 82/99] fix: find members behind :: and -> with spaces or
 comments in between

K :: member() and $a-> /* why */ member() meant nothing.
---
 analysis/memberAccess.go         | 16 +++++++++++++++-
 analysis/scopedConstantAccess.go |  3 +--
 analysis/scopedMethodAccess.go   |  3 +--
 analysis/scopedPropertyAccess.go |  3 +--
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index f5fd481..205670f 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -7,10 +7,24 @@ import (
 	"github.com/john-nguyen09/phpintel/util"
 )
 
+// readScopedMember returns the node of the member behind the class and ::, there
+// can be spaces and comments in between
+func readScopedMember(traverser *util.Traverser) phrase.AstNode {
+	child := traverser.Advance()
+	for traverser.Peek() != nil {
+		token, ok := child.(*lexer.Token)
+		if !ok || (token.Type != lexer.Whitespace && token.Type != lexer.Comment && token.Type != lexer.ColonColon) {
+			break
+		}
+		child = traverser.Advance()
+	}
+	return child
+}
+
 func readMemberName(a analyser, document *Document, traverser *util.Traverser) (string, protocol.Location) {
 	next := traverser.Peek()
 	location := protocol.Location{}
-	for nextToken, ok := next.(*lexer.Token); ok && (nextToken.Type == lexer.Whitespace || nextToken.Type == lexer.Arrow); {
+	for nextToken, ok := next.(*lexer.Token); ok && (nextToken.Type == lexer.Whitespace || nextToken.Type == lexer.Comment || nextToken.Type == lexer.Arrow); {
 		if nextToken.Type == lexer.Arrow {
 			location.Range.Start = document.positionAt(nextToken.Offset + nextToken.Length)
 			location.Range.End = location.Range.Start
diff --git a/analysis/scopedConstantAccess.go b/analysis/scopedConstantAccess.go
index 27fba9d..70dd6ad 100644
--- a/analysis/scopedConstantAccess.go
+++ b/analysis/scopedConstantAccess.go
@@ -27,8 +27,7 @@ func newScopedConstantAccess(a analyser, document *Document, node *phrase.Phrase
 			constantAccess.Scope = scope
 		}
 	}
-	traverser.Advance()
-	thirdChild := traverser.Advance()
+	thirdChild := readScopedMember(traverser)
 	constantAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		constantAccess.Name = analyseMemberName(document, p)
diff --git a/analysis/scopedMethodAccess.go b/analysis/scopedMethodAccess.go
index 320b192..953bb7d 100644
--- a/analysis/scopedMethodAccess.go
+++ b/analysis/scopedMethodAccess.go
@@ -29,8 +29,7 @@ func newScopedMethodAccess(a analyser, document *Document, node *phrase.Phrase)
 			methodAccess.Scope = scope
 		}
 	}
-	traverser.Advance()
-	thirdChild := traverser.Advance()
+	thirdChild := readScopedMember(traverser)
 	methodAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		methodAccess.Name = analyseMemberName(document, p)
diff --git a/analysis/scopedPropertyAccess.go b/analysis/scopedPropertyAccess.go
index 4ccc6aa..ff7b830 100644
--- a/analysis/scopedPropertyAccess.go
+++ b/analysis/scopedPropertyAccess.go
@@ -30,8 +30,7 @@ func newScopedPropertyAccess(a analyser, document *Document, node *phrase.Phrase
 			propertyAccess.Scope = scope
 		}
 	}
-	traverser.Advance()
-	thirdChild := traverser.Advance()
+	thirdChild := readScopedMember(traverser)
 	propertyAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		propertyAccess.Name = analyseMemberName(document, p)
-- 
2.43.0


From 0f77439e88d7a7f7276f321d5312d1bbf6c325b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:19 +0000
Subject: [PATCH 83/99] fix: show no signature of an anonymous class for the
 calls in its arguments

Within the arguments of new class (...) every inner call had the signature of the constructor.
---
 analysis/document.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analysis/document.go b/analysis/document.go
index 2b0321c..fdcb843 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -654,6 +654,7 @@ func (s *Document) ArgumentListAndFunctionCallAt(pos protocol.Position) (*Argume
 		relativePos := protocol.IsInRange(pos, s.GetLocation().Range)
 		if relativePos == 0 {
 			if args, ok := s.(*ArgumentList); ok {
+				hasParamsResolvable = nil
 				if len(spine) >= 3 {
 					if _, ok := spine[len(spine)-2].(*Class); ok {
 						if classTypeDesignator, ok2 := spine[len(spine)-3].(*ClassTypeDesignator); ok2 {
-- 
2.43.0


From 7f41aec53741aa51a9b020fb369a9308413a9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:26 +0000
Subject: [PATCH 84/99] fix: know that iterable is a native type

Within namespaces it was taken for a class of the namespace.
---
 analysis/symbolType.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analysis/symbolType.go b/analysis/symbolType.go
index 3a829fd..83a7b53 100644
--- a/analysis/symbolType.go
+++ b/analysis/symbolType.go
@@ -28,6 +28,7 @@ var /* const */ Natives = map[string]bool{
 	"binary":   true,
 	"array":    true,
 	"object":   true,
+	"iterable": true,
 	"callable": true,
 	"void":     true,
 	"static":   true,
-- 
2.43.0


From 913e156129f7a2a57d23de2b4824e8c653089a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:38 +0000
Subject: [PATCH 85/99] fix: index documents again when the server was killed
 while it was writing them

C08: the completion index is written before the symbols and the hash of a
document. When the text of an opened document differs from its file and the
server is killed in between, the next one finds the hash of the file and keeps
the completion index of the text which was never saved.
---
 analysis/store.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/analysis/store.go b/analysis/store.go
index e25a095..2c3b07c 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -414,6 +414,7 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 	if s.isClosed {
 		return
 	}
+	s.invalidateDocument(uri)
 	err := s.db.WriteBatch(func(b storage.Batch) error {
 		err := s.comDB.WriteBatch(func(comB storage.Batch) error {
 			ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
@@ -530,6 +531,7 @@ func (s *Store) SyncDocument(document *Document) {
 		return
 	}
 	s.syncedDocumentURIs.Remove(document.GetURI())
+	s.invalidateDocument(document.GetURI())
 	var documentSymbols []documentSymbol
 	hasStaleSymbols := false
 	err := s.db.WriteBatch(func(b storage.Batch) error {
@@ -561,6 +563,17 @@ func (s *Store) SyncDocument(document *Document) {
 	atomic.AddUint64(&s.generation, 1)
 }
 
+// invalidateDocument forgets the hash of the document until its symbols are written.
+// The completion index is not written together with them, so when the process is
+// killed in between, the document has to be indexed again although its file may
+// still be the one which was indexed before
+func (s *Store) invalidateDocument(uri protocol.DocumentURI) {
+	err := s.db.Put(newEntry(documentCollection, uri).getKeyBytes(), nil)
+	if err != nil {
+		log.Print(err)
+	}
+}
+
 // LoadDocument makes sure that the symbols of the document are available and not
 // resolved with an older state of the index. The document must be locked
 func (s *Store) LoadDocument(document *Document) {
-- 
2.43.0


From 31f2e093beafe54917d59898be92abe493699e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 86/99] fix: resolve self and $this in the arguments of
 anonymous classes as the surrounding class

C16: new class(self::create(1)) { ... } looked for create() in the anonymous class.
---
 analysis/anonymousClass.go | 15 +++++++++++++++
 analysis/document.go       | 20 +++++++++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/analysis/anonymousClass.go b/analysis/anonymousClass.go
index 4945883..b221528 100644
--- a/analysis/anonymousClass.go
+++ b/analysis/anonymousClass.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/john-nguyen09/go-phpparser/phrase"
+	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
@@ -17,6 +18,20 @@ func (s *Class) isAnonymous() bool {
 	return strings.HasPrefix(s.Name.GetOriginal(), anonymousClassPrefix)
 }
 
+// hasArgumentsAt checks whether the position is within the arguments which are given to the
+// constructor of an anonymous class, they belong to what is around the class
+func (s *Class) hasArgumentsAt(pos protocol.Position) bool {
+	if !s.isAnonymous() {
+		return false
+	}
+	for _, child := range s.children {
+		if args, ok := child.(*ArgumentList); ok && protocol.IsInRange(pos, args.GetLocation().Range) == 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func newAnonymousClass(a analyser, document *Document, node *phrase.Phrase) Symbol {
 	class := &Class{
 		Location: document.GetNodeLocation(node),
diff --git a/analysis/document.go b/analysis/document.go
index fdcb843..ae9aa93 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -489,7 +489,14 @@ func (s *Document) pushVariable(a analyser, variable *Variable, pos protocol.Pos
 func (s *Document) getLastClass() Symbol {
 	for i := len(s.blockStack) - 1; i >= 0; i-- {
 		switch class := s.blockStack[i].(type) {
-		case *Class, *Interface, *Trait:
+		case *Class:
+			if i+1 < len(s.blockStack) && class.isAnonymous() {
+				if _, ok := s.blockStack[i+1].(*ArgumentList); ok {
+					continue
+				}
+			}
+			return class
+		case *Interface, *Trait:
 			return class
 		}
 	}
@@ -506,8 +513,12 @@ func (s *Document) ClassAt(pos protocol.Position) Symbol {
 			tra.stopDescent = true
 			return
 		} else if relativeRange == 0 {
-			switch s.(type) {
-			case *Class, *Interface, *Trait:
+			switch class := s.(type) {
+			case *Class:
+				if !class.hasArgumentsAt(pos) {
+					found = s
+				}
+			case *Interface, *Trait:
 				found = s
 			}
 		} else {
@@ -553,6 +564,9 @@ func (s *Document) getClassAtPos(pos protocol.Position) Symbol {
 	// Nested classes start after the classes which contain them
 	for i := len(s.classStack) - 1; i >= 0; i-- {
 		if protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) == 0 {
+			if class, ok := s.classStack[i].(*Class); ok && class.hasArgumentsAt(pos) {
+				continue
+			}
 			return s.classStack[i]
 		}
 	}
-- 
2.43.0


From 925aa14828c262b4efcb41fc44f36ac71a5dc20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:00 +0000
Subject: [PATCH 87/99] fix: find symbols of the stubs once when there are
 several workspace folders

C20: workspace/symbol listed every one of them once for each folder.
---
 internal/lsp/symbol.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index 442334b..fa71b8f 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -215,5 +215,19 @@ func (s *Server) workspaceSymbol(ctx context.Context, params *protocol.Workspace
 			}
 		}
 	}
-	return symbols, nil
+	return uniqueSymbols(symbols), nil
+}
+
+// uniqueSymbols drops repetitions, because every workspace folder knows the stubs
+func uniqueSymbols(symbols []protocol.SymbolInformation) []protocol.SymbolInformation {
+	seen := make(map[protocol.SymbolInformation]struct{}, len(symbols))
+	results := symbols[:0]
+	for _, symbol := range symbols {
+		if _, ok := seen[symbol]; ok {
+			continue
+		}
+		seen[symbol] = struct{}{}
+		results = append(results, symbol)
+	}
+	return results
 }
-- 
2.43.0


From adb1c82aa41d2360b7d95550c7743a9f43d526dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:51 +0000
Subject: [PATCH 88/99] fix: keep documents which are open while their folder
 is not in the workspace

C20: what the editor showed was forgotten when its folder was removed, or was not
there yet, and later edits were applied to the text on the disk.
---
 analysis/store.go              |  9 +++++++
 internal/lsp/sync.go           |  3 +++
 internal/lsp/workspaceStore.go | 45 ++++++++++++++++++++++++++++++++++
 3 files changed, 57 insertions(+)

diff --git a/analysis/store.go b/analysis/store.go
index 2c3b07c..0890eaa 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -391,6 +391,15 @@ func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 	s.CompareAndIndexDocument(ctx, uri)
 }
 
+// OpenDocuments returns the documents which are open in the editor
+func (s *Store) OpenDocuments() []*Document {
+	var documents []*Document
+	for item := range s.documents.IterBuffered() {
+		documents = append(documents, item.Val.(*Document))
+	}
+	return documents
+}
+
 // IsCurrent returns true if the document is the one which is open
 func (s *Store) IsCurrent(document *Document) bool {
 	value, ok := s.documents.Get(document.GetURI())
diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index d3ba056..0272c13 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"sync"
 
+	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
 )
@@ -17,6 +18,7 @@ func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocume
 	uri := normaliseURI(params.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
+		s.store.addStrayDocument(analysis.NewDocument(uri, []byte(params.TextDocument.Text)))
 		return nil
 	}
 	document := store.OpenDocument(ctx, uri, []byte(params.TextDocument.Text))
@@ -32,6 +34,7 @@ func (s *Server) didClose(ctx context.Context, params *protocol.DidCloseTextDocu
 	uri := normaliseURI(params.TextDocument.URI)
 	store := s.store.getStore(uri)
 	if store == nil {
+		s.store.removeStrayDocument(uri)
 		return nil
 	}
 	store.CloseDocument(ctx, uri)
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 6088230..0916d0a 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -30,6 +30,11 @@ type workspaceStore struct {
 	stores     []*analysis.Store
 	createJobs chan creatorJob
 	deleteJobs chan string
+
+	// documents which are open in the editor but in none of the folders, which
+	// might be added while they are open
+	strayMu   sync.Mutex
+	strayDocs map[protocol.DocumentURI]*analysis.Document
 }
 
 func newWorkspaceStore(ctx context.Context, server *Server) *workspaceStore {
@@ -39,6 +44,7 @@ func newWorkspaceStore(ctx context.Context, server *Server) *workspaceStore {
 		stores:     []*analysis.Store{},
 		createJobs: make(chan creatorJob),
 		deleteJobs: make(chan string),
+		strayDocs:  make(map[protocol.DocumentURI]*analysis.Document),
 	}
 	for i := 0; i < numCreators; i++ {
 		go workspaceStore.newCreator(i)
@@ -152,6 +158,7 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 		return
 	}
 	s.indexFolder(ctx, store, rootPath)
+	s.openStrayDocuments(ctx)
 	err = s.registerFileWatcher(ctx, uri, server)
 	if err != nil {
 		log.Printf("addView error: %v", err)
@@ -164,6 +171,9 @@ func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri pro
 		if store.GetURI() == uri {
 			defer store.Close()
 			s.removeStore(uri)
+			for _, document := range store.OpenDocuments() {
+				s.addStrayDocument(document)
+			}
 			s.unregisterFileWatcher(ctx, uri, server)
 			break
 		}
@@ -259,6 +269,40 @@ func (s *workspaceStore) removeStore(uri protocol.DocumentURI) {
 	}
 }
 
+func (s *workspaceStore) addStrayDocument(document *analysis.Document) {
+	s.strayMu.Lock()
+	defer s.strayMu.Unlock()
+	s.strayDocs[document.GetURI()] = document
+}
+
+func (s *workspaceStore) removeStrayDocument(uri protocol.DocumentURI) {
+	s.strayMu.Lock()
+	defer s.strayMu.Unlock()
+	delete(s.strayDocs, uri)
+}
+
+func (s *workspaceStore) changeStrayDocument(uri protocol.DocumentURI, changes []protocol.TextDocumentContentChangeEvent) {
+	s.strayMu.Lock()
+	defer s.strayMu.Unlock()
+	if document, ok := s.strayDocs[uri]; ok {
+		newDoc := document.CloneForMutate()
+		newDoc.ApplyChanges(changes)
+		s.strayDocs[uri] = newDoc
+	}
+}
+
+// openStrayDocuments opens the documents which are now in one of the folders
+func (s *workspaceStore) openStrayDocuments(ctx context.Context) {
+	s.strayMu.Lock()
+	defer s.strayMu.Unlock()
+	for uri, document := range s.strayDocs {
+		if store := s.getStore(uri); store != nil {
+			delete(s.strayDocs, uri)
+			s.server.provideDiagnostics(ctx, store, store.OpenDocument(ctx, uri, document.GetText()))
+		}
+	}
+}
+
 func (s *workspaceStore) removeDocument(ctx context.Context, store *analysis.Store, uri string) {
 	store.RemoveDocument(ctx, uri)
 	store.RemoveFolder(ctx, uri)
@@ -268,6 +312,7 @@ func (s *workspaceStore) changeDocument(ctx context.Context, params *protocol.Di
 	uri := normaliseURI(params.TextDocument.URI)
 	store := s.getStore(uri)
 	if store == nil {
+		s.changeStrayDocument(uri, params.ContentChanges)
 		return nil
 	}
 	defer store.LockURI(uri)()
-- 
2.43.0


From 3c1ae6471de5c10dc2c8257a387cebd2b6d2d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:18 +0000
Subject: [PATCH 89/99] fix: describe a declaration by its own comment only

The doc comment of a class was also taken for members which are written on
the line of the class, and that of a member for those behind it on the same
line: with it went descriptions, types and deprecations.
---
 analysis/anonymousClass.go | 2 +-
 analysis/class.go          | 2 +-
 analysis/classConst.go     | 1 +
 analysis/const.go          | 1 +
 analysis/define.go         | 2 +-
 analysis/document.go       | 8 ++++++++
 analysis/function.go       | 2 +-
 analysis/interface.go      | 2 +-
 analysis/method.go         | 2 +-
 analysis/property.go       | 1 +
 analysis/trait.go          | 1 +
 11 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/analysis/anonymousClass.go b/analysis/anonymousClass.go
index b221528..8aa16ee 100644
--- a/analysis/anonymousClass.go
+++ b/analysis/anonymousClass.go
@@ -40,7 +40,7 @@ func newAnonymousClass(a analyser, document *Document, node *phrase.Phrase) Symb
 	class.Name = NewTypeString(anonymousClassPrefix + hex.EncodeToString(hash[:6]) + "#" + class.Location.Range.Start.String())
 	class.Name.SetNamespace(document.currImportTable().GetNamespace())
 	document.addClass(class)
-	phpDoc := document.getValidPhpDoc(class.Location)
+	phpDoc := document.takeValidPhpDoc(class.Location)
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	document.addSymbol(class)
diff --git a/analysis/class.go b/analysis/class.go
index 01d8884..c7fc354 100644
--- a/analysis/class.go
+++ b/analysis/class.go
@@ -65,7 +65,7 @@ func newClass(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		Location: document.GetNodeLocation(node),
 	}
 	document.addClass(class)
-	phpDoc := document.getValidPhpDoc(class.Location)
+	phpDoc := document.takeValidPhpDoc(class.Location)
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	document.addSymbol(class)
diff --git a/analysis/classConst.go b/analysis/classConst.go
index a40f2d8..4f2a09b 100644
--- a/analysis/classConst.go
+++ b/analysis/classConst.go
@@ -42,6 +42,7 @@ func newClassConstDeclaration(a analyser, document *Document, node *phrase.Phras
 		}
 		child = traverser.Advance()
 	}
+	document.lastPhpDoc = nil
 	return nil
 }
 
diff --git a/analysis/const.go b/analysis/const.go
index 01868a7..78f884d 100644
--- a/analysis/const.go
+++ b/analysis/const.go
@@ -26,6 +26,7 @@ func newConstDeclaration(a analyser, document *Document, node *phrase.Phrase) Sy
 		}
 		child = traverser.Advance()
 	}
+	document.lastPhpDoc = nil
 	return nil
 }
 
diff --git a/analysis/define.go b/analysis/define.go
index ad691b1..e84446c 100644
--- a/analysis/define.go
+++ b/analysis/define.go
@@ -27,7 +27,7 @@ func newDefine(a analyser, document *Document, node *phrase.Phrase) Symbol {
 	define := &Define{
 		location: document.GetNodeLocation(node),
 	}
-	phpDoc := document.getValidPhpDoc(define.location)
+	phpDoc := document.takeValidPhpDoc(define.location)
 	document.addSymbol(define)
 	document.pushBlock(define)
 	traverser := util.NewTraverser(node)
diff --git a/analysis/document.go b/analysis/document.go
index ae9aa93..dac3716 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -781,6 +781,14 @@ func (s *Document) getValidPhpDoc(location protocol.Location) *phpDocComment {
 	return nil
 }
 
+// takeValidPhpDoc is for declarations which have others inside of them, or on
+// the same line, which the comment is not about
+func (s *Document) takeValidPhpDoc(location protocol.Location) *phpDocComment {
+	phpDoc := s.getValidPhpDoc(location)
+	s.lastPhpDoc = nil
+	return phpDoc
+}
+
 func (s *Document) getGlobalVariable(name string) *GlobalVariable {
 	for _, child := range s.Children {
 		if globalVariable, ok := child.(*GlobalVariable); ok && globalVariable.GetName() == name {
diff --git a/analysis/function.go b/analysis/function.go
index c777a93..07c61b2 100644
--- a/analysis/function.go
+++ b/analysis/function.go
@@ -31,7 +31,7 @@ func newFunction(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		Params:      make([]*Parameter, 0),
 		returnTypes: newTypeComposite(),
 	}
-	phpDoc := document.getValidPhpDoc(function.location)
+	phpDoc := document.takeValidPhpDoc(function.location)
 	document.pushVariableTable(node)
 	document.pushBlock(function)
 	variableTable := document.getCurrentVariableTable()
diff --git a/analysis/interface.go b/analysis/interface.go
index 2224dd5..bcd5222 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -29,7 +29,7 @@ func newInterface(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		location: document.GetNodeLocation(node),
 	}
 	document.addClass(theInterface)
-	phpDoc := document.getValidPhpDoc(theInterface.location)
+	phpDoc := document.takeValidPhpDoc(theInterface.location)
 	document.addSymbol(theInterface)
 	document.pushBlock(theInterface)
 	traverser := util.NewTraverser(node)
diff --git a/analysis/method.go b/analysis/method.go
index fb74d98..7d044f9 100644
--- a/analysis/method.go
+++ b/analysis/method.go
@@ -60,7 +60,7 @@ func newMethodFromPhpDocTag(document *Document, class *Class, methodTag tag, loc
 func (s *Method) analyseMethodNode(a analyser, document *Document, node *phrase.Phrase) {
 	s.Params = []*Parameter{}
 	s.returnTypes = newTypeComposite()
-	phpDoc := document.getValidPhpDoc(s.location)
+	phpDoc := document.takeValidPhpDoc(s.location)
 	document.addSymbol(s)
 	document.pushVariableTable(node)
 	document.pushBlock(s)
diff --git a/analysis/property.go b/analysis/property.go
index c37a538..e1e7244 100644
--- a/analysis/property.go
+++ b/analysis/property.go
@@ -65,6 +65,7 @@ func newPropertyDeclaration(a analyser, document *Document, node *phrase.Phrase)
 		}
 		child = traverser.Advance()
 	}
+	document.lastPhpDoc = nil
 	return nil
 }
 
diff --git a/analysis/trait.go b/analysis/trait.go
index 4ac30cc..22914a3 100644
--- a/analysis/trait.go
+++ b/analysis/trait.go
@@ -25,6 +25,7 @@ func newTrait(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		location: document.GetNodeLocation(node),
 	}
 	document.addClass(trait)
+	document.takeValidPhpDoc(trait.location)
 	document.addSymbol(trait)
 	document.pushBlock(trait)
 	traverser := util.NewTraverser(node)
-- 
2.43.0


From 3f8bfb5b600aaf797e3dcdcdc5ef7e5d0d35bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:23 +0000
Subject: [PATCH 90/99] fix: read the modifiers of typed properties

They were all taken for public instance properties, because the parser
leaves the modifiers in front of the type out of the tree: private ones were
offered everywhere, and static ones were not found by Class::$name.
---
 analysis/property.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/analysis/property.go b/analysis/property.go
index e1e7244..732ab25 100644
--- a/analysis/property.go
+++ b/analysis/property.go
@@ -1,6 +1,9 @@
 package analysis
 
 import (
+	"bytes"
+	"strings"
+
 	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/analysis/storage"
@@ -44,6 +47,34 @@ func newPropertyFromPhpDocTag(document *Document, parent *Class, docTag tag, loc
 	return property
 }
 
+// modifiersInFrontOfType reads the modifiers of a typed property, which the
+// parser leaves out of the tree
+func modifiersInFrontOfType(document *Document, node *phrase.Phrase) (VisibilityModifierValue, bool) {
+	visibility := Public
+	isStatic := false
+	firstToken := util.FirstToken(node)
+	if firstToken == nil {
+		return visibility, isStatic
+	}
+	text := document.text[:firstToken.Offset]
+	for {
+		text = bytes.TrimRight(text, " \t\r\n")
+		start := bytes.LastIndexFunc(text, func(r rune) bool { return r < 'A' || r > 'z' }) + 1
+		switch strings.ToLower(string(text[start:])) {
+		case "public", "var":
+		case "protected":
+			visibility = Protected
+		case "private":
+			visibility = Private
+		case "static":
+			isStatic = true
+		default:
+			return visibility, isStatic
+		}
+		text = text[:start]
+	}
+}
+
 func newPropertyDeclaration(a analyser, document *Document, node *phrase.Phrase) Symbol {
 	traverser := util.NewTraverser(node)
 	visibility := Public
@@ -59,6 +90,7 @@ func newPropertyDeclaration(a analyser, document *Document, node *phrase.Phrase)
 				typeDeclaration := newTypeDeclaration(document, p)
 				document.addSymbol(typeDeclaration)
 				types = typeDeclaration.Type
+				visibility, isStatic = modifiersInFrontOfType(document, p)
 			case phrase.PropertyElementList:
 				newPropertyList(a, document, p, visibility, isStatic, types)
 			}
-- 
2.43.0


From aa2901b9fbc9baa09e841b3ff2feac81a33e757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:30 +0000
Subject: [PATCH 91/99] fix: describe properties by the text of their comments

Only the text behind @var was shown, and nothing where the comment has its
text in front of the tag, or no tag.
---
 analysis/property.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/analysis/property.go b/analysis/property.go
index 732ab25..50b6f00 100644
--- a/analysis/property.go
+++ b/analysis/property.go
@@ -162,9 +162,12 @@ func (s *Property) GetDescription() string {
 func (s *Property) applyPhpDoc(document *Document, phpDoc phpDocComment) {
 	tags := phpDoc.Vars
 	s.deprecatedTag = phpDoc.deprecated()
+	s.description = phpDoc.Description
 	for _, tag := range tags {
 		s.Types.merge(typesFromPhpDoc(document, tag.TypeString))
-		s.description = tag.Description
+		if tag.Description != "" {
+			s.description = tag.Description
+		}
 		break
 	}
 }
-- 
2.43.0


From e920fb69036ae0f001a68a15313258b5c2154dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:54 +0000
Subject: [PATCH 92/99] fix: read the untyped parameters of method tags

The name of an untyped parameter was taken for its type: with
"@method int f($a, $b)" the signature of f was f(\Namespace\$a $b).
---
 analysis/phpDocComment.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/analysis/phpDocComment.go b/analysis/phpDocComment.go
index 6fb56f2..067bddd 100644
--- a/analysis/phpDocComment.go
+++ b/analysis/phpDocComment.go
@@ -159,7 +159,7 @@ func processParamList(document *Document, node *phrase.Phrase) []methodTagParam
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
 			case phrase.ParameterDeclaration:
-				params = append(params, methodParam(document, p))
+				params = append(params, methodParams(document, p)...)
 			}
 		}
 		child = traverser.Advance()
@@ -217,33 +217,39 @@ func methodTag(tagName string, document *Document, node *phrase.Phrase) tag {
 	}
 }
 
-func methodParam(document *Document, node *phrase.Phrase) methodTagParam {
+// methodParams reads a parameter of a method tag. The parser takes the name of
+// an untyped parameter for its type, and the parameter behind it for its name.
+func methodParams(document *Document, node *phrase.Phrase) []methodTagParam {
+	params := []methodTagParam{{}}
+	setName := func(name string) {
+		if params[len(params)-1].Name != "" {
+			params = append(params, methodTagParam{})
+		}
+		params[len(params)-1].Name = name
+	}
 	ts := []string{}
-	name := ""
-	value := ""
 	traverser := util.NewTraverser(node)
 	for child := traverser.Advance(); child != nil; child = traverser.Advance() {
 		if p, ok := child.(*phrase.Phrase); ok {
 			switch p.Type {
 			case phrase.TypeDeclaration:
 				t := processTypeNode(document, p)
-				if t != "" {
+				if strings.HasPrefix(t, "$") {
+					setName(t)
+				} else if t != "" {
 					ts = append(ts, t)
 				}
 			case phrase.TypeUnion:
 				ts = append(ts, processTypeUnionNode(document, p)...)
 			case phrase.ParameterValue:
-				value = document.getPhraseText(p)
+				params[len(params)-1].Value = document.getPhraseText(p)
 			}
 		} else if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
-			name = document.getTokenText(t)
+			setName(document.getTokenText(t))
 		}
 	}
-	return methodTagParam{
-		TypeString: strings.Join(ts, "|"),
-		Name:       name,
-		Value:      value,
-	}
+	params[0].TypeString = strings.Join(ts, "|")
+	return params
 }
 
 func globalTag(tagName string, document *Document, node *phrase.Phrase) tag {
-- 
2.43.0


From f60e3669c1c9c75b1c3fe2d74a4ae81938abd764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:03 +0000
Subject: [PATCH 93/99] fix: tell a type from the array of it

Of "Foo|Foo[]" only the first was kept.
---
 analysis/symbolType.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/analysis/symbolType.go b/analysis/symbolType.go
index 83a7b53..755bc08 100644
--- a/analysis/symbolType.go
+++ b/analysis/symbolType.go
@@ -223,9 +223,9 @@ func (t TypeComposite) MarshalJSON() ([]byte, error) {
 	return json.Marshal(t.typeStrings)
 }
 
-func (t *TypeComposite) hasFQN(fqn string) bool {
+func (t *TypeComposite) has(other TypeString) bool {
 	for _, typeString := range t.typeStrings {
-		if typeString.GetFQN() == fqn {
+		if typeString.GetFQN() == other.GetFQN() && typeString.arrayLevel == other.arrayLevel {
 			return true
 		}
 	}
@@ -233,7 +233,7 @@ func (t *TypeComposite) hasFQN(fqn string) bool {
 }
 
 func (t *TypeComposite) add(typeString TypeString) {
-	if t.hasFQN(typeString.GetFQN()) {
+	if t.has(typeString) {
 		return
 	}
 	t.typeStrings = append(t.typeStrings, typeString)
-- 
2.43.0


From e8b7c3df1700aa324c90326233bb26c4dcc45201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:09 +0000
Subject: [PATCH 94/99] fix: know the namespace of an interface inside of it

Types written as self in the doc comments of the methods of a namespaced
interface named an interface outside of the namespace.
---
 analysis/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/interface.go b/analysis/interface.go
index bcd5222..2977038 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -45,7 +45,6 @@ func newInterface(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		}
 		child = traverser.Advance()
 	}
-	theInterface.Name.SetNamespace(document.currImportTable().GetNamespace())
 	document.popBlock()
 	return nil
 }
@@ -58,6 +57,7 @@ func (s *Interface) analyseHeader(document *Document, node *phrase.Phrase, phpDo
 			switch token.Type {
 			case lexer.Name:
 				s.Name = NewTypeString(document.getTokenText(token))
+				s.Name.SetNamespace(document.currImportTable().GetNamespace())
 				s.refLocation = document.GetNodeLocation(token)
 				if phpDoc != nil {
 					s.description = phpDoc.Description
-- 
2.43.0


From ad4650940584ca47c7e66ae43d9b409f5407b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:15 +0000
Subject: [PATCH 95/99] fix: show the default values of the parameters of
 method tags

---
 analysis/method.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analysis/method.go b/analysis/method.go
index 7d044f9..440aed2 100644
--- a/analysis/method.go
+++ b/analysis/method.go
@@ -50,6 +50,7 @@ func newMethodFromPhpDocTag(document *Document, class *Class, methodTag tag, loc
 			varLocation: location,
 			Name:        paramTag.Name,
 			Value:       paramTag.Value,
+			hasValue:    paramTag.Value != "",
 			Type:        typesFromPhpDoc(document, paramTag.TypeString),
 		}
 		method.Params = append(method.Params, param)
-- 
2.43.0


From 83f80b82ce8dda88270e311caea8819443c5080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:22 +0000
Subject: [PATCH 96/99] fix: complete members whose names have accents
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Nothing was offered for a word like "grö" behind "->" or "::".
---
 analysis/completionIndex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/analysis/completionIndex.go b/analysis/completionIndex.go
index 7d6545c..cf2bfad 100644
--- a/analysis/completionIndex.go
+++ b/analysis/completionIndex.go
@@ -29,6 +29,8 @@ type SearchResult struct {
 
 func isMatch(str string, pattern []rune) (bool, int) {
 	chars := util.ToChars([]byte(str))
+	// The matcher takes the accents off the string, but not off the pattern
+	pattern = algo.NormalizeRunes(pattern)
 	result, _ := algo.FuzzyMatchV2(false, true, true, &chars, pattern, false, nil)
 	return result.Score > 0, result.Score
 }
-- 
2.43.0


From 663b3f358afc0ee299563999845063f240d34dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:44 +0000
Subject: [PATCH 97/99] fix: know the methods of a trait inside of it

They were found by hover and definition only: $this->method() had neither
signature help, nor a type, nor completion in a trait.
---
 analysis/methodAccess.go   |  8 ++++++++
 analysis/query.go          | 17 +++++++++++++++++
 internal/lsp/completion.go |  3 +++
 3 files changed, 28 insertions(+)

diff --git a/analysis/methodAccess.go b/analysis/methodAccess.go
index d432e7f..f931a9b 100644
--- a/analysis/methodAccess.go
+++ b/analysis/methodAccess.go
@@ -65,6 +65,11 @@ func (s *MethodAccess) Resolve(ctx ResolveContext) {
 				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
 			}
 		}
+		for _, trait := range q.GetTraits(scopeType.GetFQN()) {
+			for _, m := range q.GetTraitMethods(trait, s.Name).ReduceAccess(currentClass, s) {
+				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
+			}
+		}
 	}
 	s.hasResolved = true
 }
@@ -86,6 +91,9 @@ func (s *MethodAccess) ResolveToHasParams(ctx ResolveContext) []HasParams {
 		for _, intf := range q.GetInterfaces(typeString.GetFQN()) {
 			methods = append(methods, q.GetInterfaceMethods(intf, s.Name, nil).ReduceAccess(currentClass, s)...)
 		}
+		for _, trait := range q.GetTraits(typeString.GetFQN()) {
+			methods = append(methods, q.GetTraitMethods(trait, s.Name).ReduceAccess(currentClass, s)...)
+		}
 		for _, m := range methods {
 			hasParams = append(hasParams, m.Method)
 		}
diff --git a/analysis/query.go b/analysis/query.go
index a26cf2a..9f40ad1 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -509,6 +509,23 @@ func (q *Query) GetTraitMethods(trait *Trait, name string) InheritedMethods {
 	return methods
 }
 
+// SearchTraitMethods searches the methods of a trait using fuzzy
+func (q *Query) SearchTraitMethods(trait *Trait, keyword string) InheritedMethods {
+	methods := q.GetTraitMethods(trait, "")
+	if keyword != "" {
+		newMethods := []MethodWithScope{}
+		patternRune := []rune(strings.ToLower(keyword))
+		for _, method := range methods.Methods {
+			if matched, score := isMatch(method.Method.Name, patternRune); matched {
+				method.Score = score
+				newMethods = append(newMethods, method)
+			}
+		}
+		methods.Methods = newMethods
+	}
+	return methods
+}
+
 // SearchClassMethods searches methods using fuzzy
 func (q *Query) SearchClassMethods(class *Class, keyword string, searchedFQNs map[string]struct{}) InheritedMethods {
 	if searchedFQNs == nil {
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 6db162c..c03d1c6 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -436,6 +436,9 @@ func memberAccessCompletion(ctx *completionContext, word string, access analysis
 			ms.Merge(ctx.query.SearchInterfaceMethods(intf, word, ms.SearchedFQNs))
 			ps.Merge(ctx.query.SearchInterfaceProps(intf, word, ps.SearchedFQNs))
 		}
+		for _, trait := range ctx.query.GetTraits(scopeTypeFQN) {
+			ms.Merge(ctx.query.SearchTraitMethods(trait, word))
+		}
 		methods = analysis.MergeMethodWithScope(methods, ms.ReduceAccess(currentClass, access))
 		props = analysis.MergePropWithScope(props, ps.ReduceAccess(currentClass, access))
 	}
-- 
2.43.0


From 47dcc8a1b5c31fb55c1713ba998a64d9d5570f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:35 +0000
Subject: [PATCH 98/99] fix: give back the disk space of overwritten lists of
 symbols

Every edit appends the list of the symbols of the document to the key-value
store, which was never compacted: it grew by the size of the list with every
keystroke, for ever.
---
 analysis/store.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analysis/store.go b/analysis/store.go
index 0890eaa..8eb39eb 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -256,6 +256,10 @@ func openStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Sto
 		db.Close()
 		return nil, err
 	}
+	// Nothing else gives back the space of what has been overwritten
+	if _, err = greb.Compact(); err != nil {
+		log.Printf("NewStore: cannot compact %s: %v", storePath, err)
+	}
 	store := &Store{
 		uri:       uri,
 		FS:        fs,
-- 
2.43.0


From 1f997f85388588b2bb497d5869b4e0b21d0e8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:45 +0000
Subject: [PATCH 99/99] fix: wait for the readers of a folder which is removed

leveldb does not wait for the reads which are in progress when it is closed,
so removing a workspace folder while its files were being indexed, or delayed
diagnostics were being computed, could panic: "interface conversion:
cache.Value is nil, not *table.Reader".
---
 analysis/storage/goleveldb.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/analysis/storage/goleveldb.go b/analysis/storage/goleveldb.go
index b37a549..261f7f5 100644
--- a/analysis/storage/goleveldb.go
+++ b/analysis/storage/goleveldb.go
@@ -1,6 +1,8 @@
 package storage
 
 import (
+	"sync"
+
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/errors"
 	"github.com/syndtr/goleveldb/leveldb/filter"
@@ -11,6 +13,9 @@ import (
 
 type goLevelDB struct {
 	db *leveldb.DB
+	// closeMu is held for reading while the database is read, because leveldb does not
+	// wait for readers when it is closed
+	closeMu sync.RWMutex
 }
 
 var _ DB = (*goLevelDB)(nil)
@@ -24,7 +29,7 @@ func NewGoLevelDB(path string) (*goLevelDB, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &goLevelDB{db}, nil
+	return &goLevelDB{db: db}, nil
 }
 
 // IsCorrupted checks if the error is because of missing or broken files of the storage
@@ -33,6 +38,8 @@ func IsCorrupted(err error) bool {
 }
 
 func (s *goLevelDB) Close() {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
 	s.db.Close()
 }
 
@@ -45,6 +52,12 @@ func (s *goLevelDB) Put(key []byte, value []byte) error {
 }
 
 func (s *goLevelDB) Get(key []byte) ([]byte, error) {
+	// This only fails when it is being closed, waiting could be a deadlock because reads
+	// are nested
+	if !s.closeMu.TryRLock() {
+		return nil, leveldb.ErrClosed
+	}
+	defer s.closeMu.RUnlock()
 	return s.db.Get(key, nil)
 }
 
@@ -58,6 +71,10 @@ func (s *goLevelDB) WriteBatch(f func(Batch) error) error {
 }
 
 func (s *goLevelDB) PrefixStream(prefix []byte, onData func(Iterator)) {
+	if !s.closeMu.TryRLock() {
+		return
+	}
+	defer s.closeMu.RUnlock()
 	it := newGoLevelDBPrefixIterator(s.db, prefix)
 	defer it.close()
 	for ; it.valid(); it.next() {
-- 
2.43.0

