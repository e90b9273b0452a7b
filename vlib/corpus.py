"""PHP seed programs for the hostile-input workloads, and a mutation engine."""

SEEDS = [
'''<?php
namespace App\\Models;

use App\\Contracts\\{Able, Runnable as Run};
use function App\\helpers\\fmt;
use const App\\helpers\\LIMIT;
use Countable;

/**
 * A model
 * @property int $id
 * @property-read string $slug
 * @method static self find(int $id, ...$rest)
 * @method void touch()
 * @deprecated since 2.0
 */
abstract class Model extends Base implements Able, \\Countable
{
    use SoftDeletes, Other { Other::run insteadof SoftDeletes; run as protected go; }

    const TABLE = 'models', KEY = "id";
    private const SECRET = 1;
    public static $booted = [];
    /** @var self[] */
    protected $children = [], $parent = null;

    public function __construct(array $attrs = [], ?Model &$ref = null, string ...$rest)
    {
        parent::__construct($attrs);
        $this->children[] = new static($attrs);
        self::$booted[static::class] = true;
    }

    /** @return static|null */
    abstract protected function make(): ?self;

    final public static function create(int $a = 1, $b = self::KEY): self
    {
        $o = new self(['a' => $a, 'b' => $b]);
        foreach ($o->children as $k => $child) {
            $child->make()->parent->children[0]->count();
        }
        list($x, $y) = [1, 2];
        [$p, 'q' => $q] = f($x, $y);
        return $o ?? static::find($p)->parent;
    }

    public function count() { return \\count($this->children); }
}
''',
'''<?php
interface A { const X = 1; public function m(B $b, $c = array(1, 2)); }
interface B extends A, C {}
trait T { private $p = 1; abstract function q(); static function s() { return __CLASS__; } }
final class D implements B { use T; public function m(B $b, $c = []) { return function ($x) use ($b, &$c) { return $x + $c; }; } }
function g(int $n, ...$args): ?string { global $glob; static $cnt = 0; $cnt++; return $n > 0 ? "n={$n} $args[0] {$glob->name->x}" : null; }
const ONE = 1, TWO = ONE + 1;
define('THREE', 3);
define("NS\\\\FOUR", 4);
try { g(1); } catch (FooException | \\BarException $e) { echo $e->getMessage(); } finally { unset($e); }
switch ($glob) { case ONE: break; default: exit; }
while (true): endwhile;
for ($i = 0, $j = 10; $i < $j; $i++, --$j) { continue 2; }
do { $x ??= 1; } while (0);
if ($a): elseif ($b): else: endif;
$f = fn($x) => $x * $y;
$an = new class(1, 2) extends D implements A { public $z; function zz() { return $this->z; } };
echo <<<EOT
heredoc {$an->z} $an[0] ${name}
EOT;
echo <<<'EOT'
nowdoc
EOT;
goto end;
end:
return [1, ...$arr, 'k' => &$v];
?>
<html><?= $x ?></html>
<?php declare(strict_types=1);
$v = clone $an; $w = (int) $v; $z = @$v['x']{0}; print $z instanceof D; yield $k => $v; `ls`; isset($a, $b) or die();
''',
'''<?php
namespace One { class K { function f(): \\Two\\L {} } function h() {} const C = 1; }
namespace Two { use One\\K; class L extends K { function z() { $this->f()->z(); parent::f(); } } \\One\\h(); echo \\One\\C, namespace\\x(); }
namespace { $k = new One\\K; $k->f()->z()->f(); }
''',
'''<?php
/** @var Foo $foo */
/** @param string[]|int $a the a
 *  @param array<int, Foo> $b
 *  @return Foo[][]|Bar */
function doc($a, $b) { foreach ($a as $v) { $v->x(); } return $b[0][1]; }
$r = doc([], [])[0][0]->bar()::baz()::$qux;
$foo->{'dyn'}->{$x}(); $cls::$stat; $cls::CONSTANT; $fn(); $$var; ${'a'.'b'};
[$a->b, $c::$d] = [1, 2];
''',
'',
'<?php',
'<?php ',
'no php here at all\n<b>é</b>',
'<?php\n$é = "ünï"; // 日本語 😀\nclass Ünï { function ß() { return $this->ß(); } }\n',
'\r\n<?php\r\nclass A\r\n{\r\n}\r\n',
'<?php\rclass OldMac\r{\r}\r',
'<?php class', '<?php function', '<?php $', '<?php $a->', '<?php A::', '<?php new ', '<?php use ', '<?php namespace ',
'<?php define(', "<?php define('", "<?php define(''", "<?php define('A", '<?php define("A\\\\B", 1', '<?php define($x, 1);',
'<?php /** @', '<?php /** @param', '<?php /** @var', '<?php /** @method', '<?php /** @property $', '<?php /** @return []*/ function f(){}',
'<?php /** @var ][ $x */ $x->', '<?php /** @param ]] $x */ function g($x) { $x->y; }',
'<?php class A extends A { function f() { $this->f(); parent::f(); self::f(); static::f(); $this->x; self::$x; self::X; } }',
'<?php class P extends Q {} class Q extends P {} (new P)->foo(); P::foo(); P::$bar; P::BAZ; $p = new P; $p->q; ',
'<?php interface I extends J {} interface J extends I {} class W implements I { function k(I $i) { $i->m(); I::C; $this->nope(); } }',
'<?php trait T1 { use T2; } trait T2 { use T1; } class U { use T1; function k() { $this->m(); $this->x; self::$y; } }',
'<?php foreach ($a as $b => list($c, $d)) {} foreach', '<?php catch', '<?php try { } catch', '<?php fn', '<?php function() use (',
'<?php "$a[', '<?php "{$a->', '<?php <<<EOT\n', "<?php <<<'X'\nX", '<?php /*', '<?php #', '<?php ?>', '<?php [', '<?php ((((((((((', '<?php }}}}', '<?php {{{{',
'<?php class { function { $x', '<?php class A { const', '<?php class A { const = 1; }', '<?php class A { public', '<?php class A { use', '<?php interface', '<?php interface I extends', '<?php trait',
'<?php const', '<?php const A', '<?php const A =', '<?php global', '<?php global $', '<?php static', '<?php static $a', '<?php use A\\{', '<?php use A\\{B as', '<?php use function', '<?php use A as B; new B',
]

TOKENS = ['<?php ', '?>', ' ', '\n', '\r\n', '\t', ';', '{', '}', '(', ')', '[', ']', ',', '.', '->', '?->', '::', '=>', '=', '==', '??', '?', ':', '&', '|', '...',
          '$', '$this', '$x', '$y', '${', '"', "'", '`', '\\', '#', '//', '/*', '*/', '/** ', ' */', '@', '@param ', '@var ', '@return ', '@method ', '@property ', '@deprecated',
          'class ', 'interface ', 'trait ', 'function ', 'fn', 'extends ', 'implements ', 'use ', 'as ', 'namespace ', 'const ', 'new ', 'static', 'self', 'parent', 'public ', 'private ', 'protected ', 'abstract ', 'final ',
          'foreach ', 'catch ', 'try ', 'if ', 'else ', 'while ', 'switch ', 'case ', 'return ', 'echo ', 'global ', 'define', 'list', 'array', 'null', 'true', 'instanceof ', 'insteadof ', 'clone ', 'yield ', 'goto ',
          'A', 'B', 'Foo', 'bar', 'X1', '_', 'é', '日', '😀', '0', '1.5e3', '0x1F', '[]', '()', '{}', '<<<EOT\n', 'EOT', 'EOT;\n', '\x00', '\ufeff', '\u2028', "define('A', 1);", 'int', 'string', '?int', 'A|B', 'A[]']


def mutate(r, text, n):
    for _ in range(n):
        k = r.randrange(9)
        p = r.randrange(len(text) + 1)
        if k <= 2:
            text = text[:p] + r.choice(TOKENS) + text[p:]
        elif k == 3:
            q = min(len(text), p + r.choice([1, 1, 2, 5, 20]))
            text = text[:p] + text[q:]
        elif k == 4:
            q = min(len(text), p + r.randrange(1, 60))
            d = r.randrange(len(text) + 1)
            text = text[:d] + text[p:q] + text[d:]
        elif k == 5:
            text = text[:p]
        elif k == 6:
            o = r.choice(SEEDS)
            if o:
                a = r.randrange(len(o))
                text = text[:p] + o[a:a + r.randrange(1, 80)] + text[p:]
        elif k == 7:
            q = min(len(text), p + 1)
            text = text[:p] + r.choice(TOKENS) + text[q:]
        else:
            lines = text.split('\n')
            i = r.randrange(len(lines))
            j = r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
            text = '\n'.join(lines)
        if len(text) > 6000:
            text = text[:6000]
    return text


def hostile(r):
    """One hostile document."""
    k = r.random()
    if k < 0.25:
        return r.choice(SEEDS)
    if k < 0.45:
        s = r.choice(SEEDS)
        return s[:r.randrange(len(s) + 1)]
    if k < 0.55:
        return '<?php ' + ''.join(r.choice(TOKENS) for _ in range(r.randrange(1, 60)))
    return mutate(r, r.choice(SEEDS[:4] if r.random() < 0.6 else SEEDS), r.choice([1, 2, 3, 5, 10]))


def lsp_lines(text):
    """Split on the LSP line terminators, keeping nothing of them."""
    return text.replace('\r\n', '\n').replace('\r', '\n').split('\n')


def u16(s):
    return len(s.encode('utf-16-le', 'surrogatepass')) // 2
