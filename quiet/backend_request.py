import sys; sys.path.insert(0, '/verif/quiet')
from q import *
s = open(BK).read()
import re
for var, name, res in (('Completion', 'completion', 'completion'), ('Hover', 'hover', 'hover'), ('GoToDefinition', 'goto_definition', 'definition'), ('CodeAction', 'code_action', 'code_action'), ('DocumentSymbol', 'document_symbol', 'symbols')):
    o = '''        let (sender, tx) = oneshot::channel();
        let _ = self
            .main_channel
            .send(LspMessage::%s(params, sender))
            .await;
        if let Ok(%s) = tx.await {
            return Ok(%s);
        }
''' % (var, res, res)
    assert o in s, var
    for t in ('        Ok(None)\n', '\n        Ok(None)\n'):
        if o + t in s:
            s = s.replace(o + t, '''        self.ask(|sender| LspMessage::%s(params, sender)).await
''' % var)
s = s.replace('''impl Backend {
''', '''impl Backend {
    /// hands a request to the worker and waits for its answer
    async fn ask<T>(
        &self,
        message: impl FnOnce(oneshot::Sender<Option<T>>) -> LspMessage,
    ) -> Result<Option<T>> {
        let (sender, answer) = oneshot::channel();
        self.tell(message(sender)).await;
        Ok(answer.await.unwrap_or(None))
    }

    async fn tell(&self, message: LspMessage) {
        let _ = self.main_channel.send(message).await;
    }

''', 1)
for v in ('DidOpen', 'DidChange', 'DidSave'):
    s = s.replace('let _ = self.main_channel.send(LspMessage::%s(params)).await;' % v, 'self.tell(LspMessage::%s(params)).await' % v)
open(BK, 'w').write(s)
