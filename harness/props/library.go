package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/pbt"
	"verif/ws"
)

// ---- C05: API types of the Kubernetes libraries within generated types

var libPkgs = map[string]string{
	"corev1": "k8s.io/api/core/v1", "appsv1": "k8s.io/api/apps/v1", "batchv1": "k8s.io/api/batch/v1",
	"autoscalingv2": "k8s.io/api/autoscaling/v2", "networkingv1": "k8s.io/api/networking/v1",
	"rbacv1": "k8s.io/api/rbac/v1", "policyv1": "k8s.io/api/policy/v1", "metav1": "k8s.io/apimachinery/pkg/apis/meta/v1",
	"admissionv1": "k8s.io/api/admissionregistration/v1", "runtime": "k8s.io/apimachinery/pkg/runtime",
	"resource": "k8s.io/apimachinery/pkg/api/resource", "intstr": "k8s.io/apimachinery/pkg/util/intstr",
	"types": "k8s.io/apimachinery/pkg/types", "unstructured": "k8s.io/apimachinery/pkg/apis/meta/v1/unstructured",
	"extv1beta1": "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1", "extv1": "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1",
}

// structs and others of the libraries
var libStructs = strings.Fields(`corev1.LocalObjectReference corev1.ObjectReference corev1.EnvVar corev1.EnvFromSource corev1.ResourceRequirements
 corev1.Toleration corev1.Affinity corev1.Container corev1.ContainerPort corev1.PodSpec corev1.PodTemplateSpec corev1.Volume corev1.VolumeSource corev1.Probe
 corev1.SecurityContext corev1.PodSecurityContext corev1.ServiceSpec corev1.ServiceStatus corev1.ServicePort corev1.PersistentVolumeClaimSpec corev1.NodeSelector
 corev1.TopologySpreadConstraint corev1.SecretKeySelector corev1.TypedLocalObjectReference corev1.Lifecycle corev1.PodStatus corev1.NodeStatus corev1.PersistentVolumeSpec
 appsv1.DeploymentSpec appsv1.DeploymentStrategy appsv1.StatefulSetSpec appsv1.DaemonSetStatus batchv1.JobSpec batchv1.CronJobSpec batchv1.JobTemplateSpec
 autoscalingv2.MetricSpec autoscalingv2.HorizontalPodAutoscalerSpec networkingv1.IngressSpec networkingv1.NetworkPolicySpec networkingv1.IngressBackend
 rbacv1.PolicyRule rbacv1.Subject rbacv1.RoleRef policyv1.PodDisruptionBudgetSpec policyv1.PodDisruptionBudgetStatus admissionv1.RuleWithOperations
 admissionv1.WebhookClientConfig metav1.LabelSelector metav1.OwnerReference metav1.ListMeta metav1.GroupKind metav1.GroupVersionResource metav1.APIResource
 metav1.StatusDetails metav1.DeleteOptions metav1.ListOptions metav1.TypeMeta metav1.Condition`)

var libOthers = strings.Fields(`corev1.Protocol corev1.ResourceList corev1.PullPolicy corev1.ConditionStatus metav1.Time metav1.MicroTime metav1.Duration metav1.ConditionStatus
 resource.Quantity intstr.IntOrString runtime.RawExtension types.UID rbacv1.PolicyRule metav1.LabelSelectorOperator
 extv1.JSON extv1beta1.JSON metav1.FieldsV1 metav1.ManagedFieldsEntry`)

func genLibrary(s *pbt.Src) any { return genLibraryWith(s, nil) }

// genLibraryWith draws from more names too.
func genLibraryWith(s *pbt.Src, more []string) any {
	c := &encCase{schCase: schCase{o: apiOpts{floats: s.Chance(30), embeddedMeta: s.Chance(40)}}, seed: s.Uint(1 << 40)}
	name := func(from []string) string { return pbt.Pick(s, from...) }
	typ := func() string {
		if c.o.embeddedMeta && s.Chance(12) {
			return "metav1.ObjectMeta"
		}
		if len(more) > 0 && s.Chance(15) {
			return name(more)
		}
		if s.Chance(25) {
			return name(libOthers)
		}
		return name(libStructs)
	}
	var decls, body strings.Builder
	n := s.Range(1, 4)
	for i := range n {
		t := typ()
		switch s.PickW(4, 2, 2, 2, 2, 2, 1) {
		case 1:
			t = "*" + t
		case 2:
			t = "[]" + t
		case 3:
			t = "map[string]" + t
		case 4: // behind a name
			t = fmt.Sprintf("L%d", i)
			switch s.Intn(3) {
			case 0:
				fmt.Fprintf(&decls, "type L%d []%s\n\n", i, typ())
			case 1:
				fmt.Fprintf(&decls, "type L%d map[string]%s\n\n", i, typ())
			default:
				fmt.Fprintf(&decls, "type L%d struct {\n\tV %s `json:\"v\"`\n}\n\n", i, typ())
			}
		case 5: // embedded
			t = name(libStructs)
			if t == "corev1.VolumeSource" || s.Chance(40) {
				fmt.Fprintf(&decls, "type L%d struct {\n\t%s `json:\",inline\"`\n\tExtra string `json:\"extraOfMine\"`\n}\n\n", i, t)
			} else {
				fmt.Fprintf(&decls, "type L%d struct {\n\t%s `json:\"inner\"`\n}\n\n", i, t)
			}
			t = fmt.Sprintf("L%d", i)
		case 6: // an alias
			fmt.Fprintf(&decls, "type L%d = %s\n\n", i, t)
			t = fmt.Sprintf("L%d", i)
		}
		fmt.Fprintf(&body, "\tF%d %s `json:\"f%d%s\"`\n", i, t, i, pbt.Pick(s, "", ",omitempty"))
	}
	if s.Chance(12) { // holds any object, if it may keep it
		fmt.Fprintf(&body, "\t// +kubebuilder:pruning:PreserveUnknownFields\n\tU %sunstructured.Unstructured `json:\"u\"`\n", pbt.Pick(s, "", "*"))
	}
	var b strings.Builder
	b.WriteString("// +groupName=g.ex.test\npackage v1\n\nimport (\n")
	var names []string
	text := " metav1." + strings.NewReplacer("]", " ", "*", " ", "\t", " ").Replace(decls.String()+body.String())
	for k := range libPkgs {
		if strings.Contains(text, " "+k+".") {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Fprintf(&b, "\t%s %q\n", k, libPkgs[k])
	}
	b.WriteString(")\n\n" + decls.String() + "type RootSpec struct {\n" + body.String() + "}\n\ntype Root struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec RootSpec `json:\"spec\"`\n}\n")
	c.files = ws.Files{"v1/f0.go": b.String()}
	c.library = true
	return c
}
