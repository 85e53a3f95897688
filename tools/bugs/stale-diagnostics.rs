//! property: C36
//! needs: a file with a mistake that is repaired, or left for a file without one
//! breaks: the diagnostics shown stay when there are none any more
//! file: code/common.ts
//! old
//! |            diganosticCollection.clear()
//! |            diganosticCollection.set(
//! |                editor.document.uri,
//! |                file.diagnostics()
//! |            )
//! new
//! |            let diagnostics = file.diagnostics()
//! |            if (diagnostics.length > 0) {
//! |                diganosticCollection.clear()
//! |                diganosticCollection.set(editor.document.uri, diagnostics)
//! |            }
